package verifmon

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
)

func swarmConfigOK(c *config.Swarm, n int) bool {
	unit := []float64{c.ConnectionProbability, c.CouplingStrength, c.Stubbornness, c.BasinStrength, c.BaseConfidence, c.InfluenceDefault}
	for _, x := range unit {
		if !(x >= 0 && x <= 1) {
			return false
		}
	}
	if n <= 0 || c.MaxSwarmSize > 0 && n > c.MaxSwarmSize {
		return false
	}
	if n == 1 && c.MaxNeighbors != 0 || n > 1 && (c.MaxNeighbors < 1 || c.MaxNeighbors > n-1) {
		return false
	}
	if c.MinNeighbors < 0 || c.MinNeighbors > c.MaxNeighbors {
		return false
	}
	if !(c.InitialEnergy > 0) || !(c.BasinWidth > 0) || c.AgentUpdateInterval <= 0 || c.MonitoringInterval <= 0 {
		return false
	}
	return c.MaxConcurrentAgents >= 0 && c.BatchSize >= 0 && c.WorkerPoolSize >= 0 && c.ConnectionOptimThreshold >= 0
}

// brokenFields is the fields that are out of range by themselves.
func brokenFields(c *config.Swarm, n int) map[string]bool {
	unit := func(x float64) bool { return !(x >= 0 && x <= 1) }
	return map[string]bool{
		"ConnectionProbability": unit(c.ConnectionProbability), "CouplingStrength": unit(c.CouplingStrength), "Stubbornness": unit(c.Stubbornness),
		"BasinStrength": unit(c.BasinStrength), "BaseConfidence": unit(c.BaseConfidence), "InfluenceDefault": unit(c.InfluenceDefault),
		"InitialEnergy": !(c.InitialEnergy > 0), "BasinWidth": !(c.BasinWidth > 0), "AgentUpdateInterval": c.AgentUpdateInterval <= 0,
		"MonitoringInterval": c.MonitoringInterval <= 0, "MaxConcurrentAgents": c.MaxConcurrentAgents < 0, "BatchSize": c.BatchSize < 0,
		"WorkerPoolSize": c.WorkerPoolSize < 0, "ConnectionOptimThreshold": c.ConnectionOptimThreshold < 0, "MinNeighbors": c.MinNeighbors < 0,
		"MaxNeighbors": n > 1 && (c.MaxNeighbors < 1 || c.MaxNeighbors >= n), "MaxSwarmSize": c.MaxSwarmSize > 0 && n > c.MaxSwarmSize,
	}
}

// C21: swarm configurations are judged correctly and repaired minimally.
func TestProp(t *testing.T) {
	m := Start(t, "C21", "preset and random configurations in which any subset of the fields is corrupted (out of range, negative, zero, NaN, infinite), for sizes from negative to 100000; presets for all sizes 1..1200 and larger ones; non-trivial when at least one field is corrupted; distinct by configuration and size")
	defer m.Finish()
	sizes := []int{-1, 0, 1, 2, 3, 5, 9, 10, 19, 20, 50, 99, 100, 101, 500, 1000, 1001, 100000}
	base := func(c *Case, n int) config.Swarm {
		switch c.Intn(5) {
		case 0:
			return config.DefaultConfig()
		case 1:
			return config.SmallSwarmConfig()
		case 2:
			return config.MediumSwarmConfig()
		case 3:
			return config.ForBatching(n, c.PickD(0, 50*time.Millisecond, 200*time.Millisecond, time.Second))
		}
		return config.AutoScaleConfig(n)
	}
	m.Each("corrupted", m.N(60000), func(c *Case) {
		n := sizes[c.Intn(len(sizes))]
		cfg := base(c, n)
		if c.Intn(2) == 0 {
			cfg.MaxSwarmSize = 0
		}
		bad := 0
		desc := fmt.Sprint("n=", n)
		setF := func(name string, p *float64) {
			if c.Intn(8) == 0 {
				*p = c.PickF(-0.1, 1.1, math.NaN(), math.Inf(1), math.Inf(-1), 0, 1, 0.5, -5e-324, math.Nextafter(1, 2))
				bad++
				desc += fmt.Sprint(" ", name, "=", *p)
			}
		}
		setI := func(name string, p *int) {
			if c.Intn(8) == 0 {
				*p = c.PickI(-1, 0, 1, 2, n-1, n, n+1, math.MaxInt32, math.MinInt32)
				bad++
				desc += fmt.Sprint(" ", name, "=", *p)
			}
		}
		setD := func(name string, p *time.Duration) {
			if c.Intn(8) == 0 {
				*p = c.PickD(0, -1, 1, time.Hour, -time.Hour)
				bad++
				desc += fmt.Sprint(" ", name, "=", *p)
			}
		}
		setF("ConnectionProbability", &cfg.ConnectionProbability)
		setF("CouplingStrength", &cfg.CouplingStrength)
		setF("Stubbornness", &cfg.Stubbornness)
		setF("BasinStrength", &cfg.BasinStrength)
		setF("BaseConfidence", &cfg.BaseConfidence)
		setF("InfluenceDefault", &cfg.InfluenceDefault)
		setF("InitialEnergy", &cfg.InitialEnergy)
		setF("BasinWidth", &cfg.BasinWidth)
		setI("MaxNeighbors", &cfg.MaxNeighbors)
		setI("MinNeighbors", &cfg.MinNeighbors)
		setI("MaxSwarmSize", &cfg.MaxSwarmSize)
		setI("MaxConcurrentAgents", &cfg.MaxConcurrentAgents)
		setI("BatchSize", &cfg.BatchSize)
		setI("WorkerPoolSize", &cfg.WorkerPoolSize)
		setI("ConnectionOptimThreshold", &cfg.ConnectionOptimThreshold)
		setD("AgentUpdateInterval", &cfg.AgentUpdateInterval)
		setD("MonitoringInterval", &cfg.MonitoringInterval)
		in := cfg
		ok := swarmConfigOK(&cfg, n)
		err := cfg.Validate(n)
		c.Check((err == nil) == ok, "validate", "Validate = %v for %s (%+v)", err, desc, in)
		if err != nil {
			for f, broken := range brokenFields(&in, n) {
				c.Check(!broken || strings.Contains(err.Error(), f), "validate names", "%s: %s is not named: %v", desc, f, err)
			}
		}
		c.Check(fmt.Sprint(cfg) == fmt.Sprint(in), "validate mutates", "Validate changed %+v to %+v", in, cfg)

		err = cfg.NormalizeAndValidate(n)
		hopeless := n <= 0 || in.MaxSwarmSize > 0 && n > in.MaxSwarmSize
		for _, x := range []float64{in.ConnectionProbability, in.CouplingStrength, in.Stubbornness, in.BasinStrength, in.BaseConfidence, in.InfluenceDefault, in.InitialEnergy, in.BasinWidth} {
			hopeless = hopeless || math.IsNaN(x)
		}
		c.Check((err != nil) == hopeless, "normalize verdict", "NormalizeAndValidate = %v for %s", err, desc)
		if err == nil {
			c.Check(swarmConfigOK(&cfg, n), "normalize result", "normalizing %s gave the invalid %+v", desc, cfg)
			// valid settings are kept, invalid ones moved to the nearest bound
			pairs := [][2]float64{{in.ConnectionProbability, cfg.ConnectionProbability}, {in.CouplingStrength, cfg.CouplingStrength}, {in.Stubbornness, cfg.Stubbornness},
				{in.BasinStrength, cfg.BasinStrength}, {in.BaseConfidence, cfg.BaseConfidence}, {in.InfluenceDefault, cfg.InfluenceDefault}}
			for i, p := range pairs {
				c.Check(p[1] == math.Min(1, math.Max(0, p[0])), "probability kept", "%s: probability %d became %v from %v", desc, i, p[1], p[0])
			}
			if in.InitialEnergy > 0 {
				c.Check(cfg.InitialEnergy == in.InitialEnergy, "energy kept", "%s: %v", desc, cfg.InitialEnergy)
			}
			if in.BasinWidth > 0 {
				c.Check(cfg.BasinWidth == in.BasinWidth, "basin kept", "%s: %v", desc, cfg.BasinWidth)
			}
			if in.AgentUpdateInterval > 0 {
				c.Check(cfg.AgentUpdateInterval == in.AgentUpdateInterval, "interval kept", "%s: %v", desc, cfg.AgentUpdateInterval)
			}
			if in.MonitoringInterval > 0 {
				c.Check(cfg.MonitoringInterval == in.MonitoringInterval, "interval kept", "%s: %v", desc, cfg.MonitoringInterval)
			}
			wantMax := min(n-1, max(min(1, n-1), in.MaxNeighbors))
			c.Check(cfg.MaxNeighbors == wantMax, "max neighbors", "%s: at most %d neighbors, expected %d", desc, cfg.MaxNeighbors, wantMax)
			c.Check(cfg.MinNeighbors == min(wantMax, max(0, in.MinNeighbors)), "min neighbors", "%s: at least %d neighbors, expected %d", desc, cfg.MinNeighbors, min(wantMax, max(0, in.MinNeighbors)))
			c.Check(cfg.MaxConcurrentAgents == max(0, in.MaxConcurrentAgents) && cfg.ConnectionOptimThreshold == max(0, in.ConnectionOptimThreshold) && cfg.MaxSwarmSize == in.MaxSwarmSize, "limits kept", "%s: %+v", desc, cfg)
			if in.BatchSize > 0 {
				c.Check(cfg.BatchSize == in.BatchSize, "batch kept", "%s: %v", desc, cfg.BatchSize)
			}
			if cfg.UseBatchProcessing {
				c.Check(cfg.BatchSize > 0 && cfg.WorkerPoolSize > 0, "batch parameters", "%s: batch processing with batch size %d and %d workers", desc, cfg.BatchSize, cfg.WorkerPoolSize)
			}
			again := cfg
			c.Check(again.NormalizeAndValidate(n) == nil && again == cfg, "idempotent", "%s: normalizing twice gives %+v then %+v", desc, cfg, again)
		}
		if bad > 0 {
			c.Key(desc)
		}
		c.Sample("%s", desc)
	})

	// the presets are usable for every size they are meant for
	m.Each("presets", 1200+30, func(c *Case) {
		n := c.I + 1
		if n > 1200 {
			n = []int{1500, 2000, 3000, 5000, 10000, 20000, 50000, 50001, 100000, 1000000}[c.I%10]
		}
		a := config.AutoScaleConfig(n)
		b := swarm.AutoScaleConfig(n)
		c.Check(a == b, "auto-scale agrees", "two auto-scaled configurations for %d differ", n)
		cc := a
		if err := cc.Validate(n); n <= 1000000 || err == nil {
			c.Check(err == nil && swarmConfigOK(&cc, n), "auto-scale refused", "auto-scaled configuration for %d is refused: %v", n, err)
		}
		c.Check(cc.NormalizeAndValidate(n) == nil && swarmConfigOK(&cc, n), "auto-scale valid", "auto-scaled configuration for %d is invalid: %+v", n, a)
		c.Check(cc.CouplingStrength == a.CouplingStrength && cc.ConnectionProbability == a.ConnectionProbability && cc.Stubbornness == a.Stubbornness, "auto-scale kept", "auto-scaled configuration for %d had to be repaired: %+v", n, a)
		c.Check(a.CouplingStrength > 0, "auto-scale couples", "no coupling for %d agents", n)
		for _, w := range []time.Duration{0, 50 * time.Millisecond, 99 * time.Millisecond, 100 * time.Millisecond, 300 * time.Millisecond, 501 * time.Millisecond, time.Second} {
			f := config.ForBatching(n, w)
			g := swarm.ConfigForBatching(n, w)
			c.Check(f == g, "batching agrees", "two batching configurations for %d, %v differ", n, w)
			err := f.Validate(n)
			c.Check(err == nil && swarmConfigOK(&f, n), "batching refused", "batching configuration for %d, %v is refused: %v", n, w, err)
			c.Check(f.NormalizeAndValidate(n) == nil && swarmConfigOK(&f, n), "batching valid", "batching configuration for %d, %v is invalid: %+v", n, w, g)
			c.Check(inUnit(g.CouplingStrength) && inUnit(g.ConnectionProbability) && inUnit(g.Stubbornness) && g.CouplingStrength > 0, "batching range", "batching configuration for %d, %v: %+v", n, w, g)
		}
		c.Key("preset", n)
	})
}
