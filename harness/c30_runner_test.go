package verifmon

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/simulations/emerge/ui"
)

// keyEvents is the documented meaning of the keys.
var keyEvents = map[rune]display.EventType{
	'q': display.EventQuit, 'r': display.EventReset, 'd': display.EventDisrupt, 'p': display.EventPause, ' ': display.EventResume,
	'1': display.ScaleTiny, '2': display.ScaleSmall, '3': display.ScaleMedium, '4': display.ScaleLarge, '5': display.ScaleHuge,
	'b': display.GoalBatch, 'l': display.GoalLoad, 'c': display.GoalConsensus, 't': display.GoalLatency, 'e': display.GoalEnergy,
	'm': display.GoalRhythm, 'f': display.GoalFailure, 'a': display.GoalTraffic,
	'h': display.PatternHighFreq, 'u': display.PatternBurst, 'y': display.PatternSteady, 'x': display.PatternMixed, 'z': display.PatternSparse,
}

var eventScale = map[display.EventType]scale.Size{display.ScaleTiny: scale.Tiny, display.ScaleSmall: scale.Small, display.ScaleMedium: scale.Medium, display.ScaleLarge: scale.Large, display.ScaleHuge: scale.Huge}
var eventGoal = map[display.EventType]goal.Type{display.GoalBatch: goal.MinimizeAPICalls, display.GoalLoad: goal.DistributeLoad, display.GoalConsensus: goal.ReachConsensus, display.GoalLatency: goal.MinimizeLatency, display.GoalEnergy: goal.SaveEnergy, display.GoalRhythm: goal.MaintainRhythm, display.GoalFailure: goal.RecoverFromFailure, display.GoalTraffic: goal.AdaptToTraffic}
var eventPattern = map[display.EventType]pattern.Type{display.PatternHighFreq: pattern.HighFrequency, display.PatternBurst: pattern.Burst, display.PatternSteady: pattern.Steady, display.PatternMixed: pattern.Mixed, display.PatternSparse: pattern.Sparse}

func keyOf(c *Case, r rune) *terminalapi.Keyboard {
	if r >= 'a' && r <= 'z' && c.Intn(2) == 0 {
		r -= 'a' - 'A'
	}
	if (r == 'q' || r == 'Q') && c.Intn(2) == 0 {
		return &terminalapi.Keyboard{Key: keyboard.KeyEsc}
	}
	return &terminalapi.Keyboard{Key: keyboard.Key(r)}
}

// recDisplay records what the runner shows and plays the user.
type recDisplay struct {
	mu      sync.Mutex
	calls   []string
	updates []display.SimulationSnapshot
	at      []time.Time
	sums    []display.Statistics
	initErr error
	runErr  error
	run     func(ctx context.Context, kb *display.KeyboardController)
	onUpd   func(s display.SimulationSnapshot)
}

func (d *recDisplay) add(s string) {
	d.mu.Lock()
	d.calls = append(d.calls, s)
	d.mu.Unlock()
}
func (d *recDisplay) Initialize() error { d.add("init"); return d.initErr }
func (d *recDisplay) Close() error      { d.add("close"); return errors.New("close failed") }
func (d *recDisplay) ShowWelcome()      { d.add("welcome") }
func (d *recDisplay) Update(s display.SimulationSnapshot) {
	d.mu.Lock()
	d.updates = append(d.updates, s)
	d.at = append(d.at, time.Now())
	d.mu.Unlock()
	if d.onUpd != nil {
		d.onUpd(s)
	}
}
func (d *recDisplay) ShowSummary(s display.Statistics) {
	d.add("summary")
	d.sums = append(d.sums, s)
}
func (d *recDisplay) Run(ctx context.Context, kb *display.KeyboardController) error {
	d.add("run")
	d.run(ctx, kb)
	return d.runErr
}

// C30: user input does what it says.
func TestProp(t *testing.T) {
	m := Start(t, "C30", "key sequences on the keyboard controller alone; key histories typed at arbitrary moments into the runner over a real simulation with a recording display, in virtual time, compared with a model of the session after every key; scripted controllers; non-trivial when at least one key was handled; distinct by history")
	defer m.Finish()
	goals := []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	pats := []pattern.Type{pattern.Unset, pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}
	var keys []rune
	for r := rune(1); r < 256; r++ {
		if _, ok := keyEvents[r]; ok {
			keys = append(keys, r)
		}
	}

	m.Each("keyboard", m.N(3000), func(c *Case) {
		kb := display.NewKeyboardController().(*display.KeyboardController)
		var want []display.EventType
		hist := ""
		drain := func() {
			for _, w := range want {
				select {
				case e := <-kb.Events():
					c.Check(e.Type == w, "event", "%q: %d instead of %d", hist, e.Type, w)
				default:
					c.Fail("event missing", "%q: expected %d", hist, w)
				}
			}
			select {
			case e := <-kb.Events():
				c.Fail("event from nowhere", "%q: %d", hist, e.Type)
			default:
			}
			want = nil
		}
		c.Within(60*time.Second, "a key", func() {
			for range c.Range(1, 40) {
				switch c.Intn(8) {
				case 0:
					// any other key does nothing
					k := keyboard.Key(c.Intn(400) - 120)
					r := rune(k)
					if r >= 'A' && r <= 'Z' {
						r += 'a' - 'A'
					}
					if _, ok := keyEvents[r]; ok || k == keyboard.KeyEsc {
						continue
					}
					hist += "?"
					kb.ProcessKey(&terminalapi.Keyboard{Key: k})
				case 1:
					drain()
				default:
					r := keys[c.Intn(len(keys))]
					hist += string(r)
					kb.ProcessKey(keyOf(c, r))
					if len(want) < 10 { // later keys are dropped rather than blocking the display
						want = append(want, keyEvents[r])
					}
				}
			}
			drain()
		})
		c.Key(hist)
	})

	m.Each("script", m.N(300), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			var script []display.ControlEvent
			var delays []time.Duration
			for i := range c.Intn(25) {
				script = append(script, display.ControlEvent{Type: display.EventType(c.Intn(23)), Data: i})
				if c.Intn(5) > 0 {
					delays = append(delays, time.Duration(c.Range(0, 3000))*time.Millisecond)
				}
			}
			start := time.Now()
			ctrl := display.NewAutomatedController(script, delays)
			var due time.Duration
			for i := range script {
				if i < len(delays) {
					due += delays[i]
				}
				e := <-ctrl.Events()
				c.Check(e.Type == script[i].Type && e.Data == script[i].Data, "scripted event", "event %d: %+v instead of %+v", i, e, script[i])
				c.Check(time.Since(start) == due, "scripted time", "event %d after %v instead of %v", i, time.Since(start), due)
			}
			time.Sleep(time.Hour)
			synctest.Wait()
			select {
			case e := <-ctrl.Events():
				c.Fail("scripted event", "an event beyond the script: %+v", e)
			default:
			}
			if len(script) > 0 {
				c.Key(fmt.Sprint(script), fmt.Sprint(delays))
			}
		})
	})

	m.Each("session", m.N(1200), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := goals[c.Intn(len(goals))]
			sc := []scale.Size{scale.Tiny, scale.Tiny, scale.Tiny, scale.Tiny, scale.Tiny, scale.Small}[c.Intn(6)]
			p := pats[c.Intn(len(pats))]
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: c.PickF(0.5, 0.7, sc.DefaultTargetCoherence())})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			interval := time.Duration(c.PickI(37, 100, 250, 1000)) * time.Millisecond
			var timeout time.Duration
			if c.Intn(3) == 0 {
				timeout = time.Duration(c.Range(500, 40000)) * time.Millisecond
			}
			cfg := ui.RunnerConfig{UpdateInterval: interval, Timeout: timeout, CurrentGoal: g, CurrentScale: sc, CurrentPattern: p}
			d := &recDisplay{}
			if c.Intn(8) == 0 {
				d.runErr = errors.New("no terminal")
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			hist := ""
			want := display.EventType(-1) // the change asked for
			quit, viaCtx := false, false
			var before simulation.Statistics
			started := time.Now()
			end := started
			early := c.Intn(10) == 0 // the display closes by itself
			paused := false
			var lastReset time.Time
			disruptions := 0
			check := func() {
				s := sim.Snapshot()
				c.Check(s.Paused == paused, "pause", "%q: paused %v, expected %v", hist, s.Paused, paused)
			}
			d.onUpd = func(s display.SimulationSnapshot) {
				if len(s.Agents) != sc.DefaultAgentCount() {
					c.Fail("update", "%q: %d agents shown of %d", hist, len(s.Agents), sc.DefaultAgentCount())
				}
			}
			steps := c.Range(1, 14)
			d.run = func(rctx context.Context, kb *display.KeyboardController) {
				over := func() bool { return rctx.Err() != nil }
				for range steps {
					wait := time.Duration(c.Range(1, 5000)) * time.Millisecond
					if timeout > 0 && time.Since(started)+wait >= timeout-50*time.Millisecond {
						break
					}
					time.Sleep(wait)
					synctest.Wait()
					if over() {
						break
					}
					k := 1
					if c.Intn(5) == 0 {
						k = c.Range(2, 6) // typed faster than handled
					}
					resetNow, disruptNow := false, false
					pre, preAt, still := sim.Snapshot(), time.Now(), paused
					for range k {
						if quit || want >= 0 {
							break // the session is over
						}
						r := keys[c.Intn(len(keys))]
						if c.Intn(3) > 0 {
							r = []rune{'p', 'p', 'r', 'd', ' ', 'd', 'r'}[c.Intn(7)]
						}
						hist += string(r)
						kb.ProcessKey(keyOf(c, r))
						e := keyEvents[r]
						switch e {
						case display.EventQuit:
							quit = true
						case display.EventPause:
							paused = !paused
							still = false
						case display.EventResume:
							paused = false
							still = false
						case display.EventReset:
							resetNow = resetNow || !paused
						case display.EventDisrupt:
							disruptNow = disruptNow || !paused
						default:
							if v, ok := eventScale[e]; ok && v != sc {
								want = e
							}
							if v, ok := eventGoal[e]; ok && v != g {
								want = e
							}
							if v, ok := eventPattern[e]; ok && v != p {
								want = e
							}
						}
					}
					time.Sleep(11 * time.Millisecond) // the input is polled every 10 ms at least
					synctest.Wait()
					check()
					s := sim.Snapshot()
					if resetNow {
						// (the timer of an earlier reset may end the mark of this one)
						c.Check(s.Reset || time.Since(lastReset) < 3*time.Second, "reset", "%q: not reset", hist)
						c.Check(s.ElapsedTime <= 12*time.Millisecond, "reset", "%q: %v elapsed after the reset", hist, s.ElapsedTime)
						lastReset = time.Now()
					}
					if disruptNow {
						disruptions++
					}
					// what was not allowed, or not asked for, did not happen
					if !resetNow {
						c.Check(pre.Reset || !s.Reset, "reset while paused", "%q: reset", hist)
						c.Check(s.ElapsedTime-pre.ElapsedTime == time.Since(preAt), "elapsed", "%q: from %v to %v in %v", hist, pre.ElapsedTime, s.ElapsedTime, time.Since(preAt))
					}
					if !disruptNow {
						c.Check(pre.Disrupted || !s.Disrupted, "disruption while paused", "%q: disrupted", hist)
					}
					if still {
						c.Check(pre.Coherence == s.Coherence && pre.PendingTasks == s.PendingTasks, "change while paused", "%q: coherence %v to %v, pending %d to %d", hist, pre.Coherence, s.Coherence, pre.PendingTasks, s.PendingTasks)
						c.Cnt("commands while paused", 1)
					}
					if disruptNow && !resetNow && disruptions == 1 {
						// the mark goes when the swarm has recovered, not within 100 ms
						// (the watch over an earlier disruption may end it sooner)
						c.Check(s.Disrupted, "disruption", "%q: not disrupted", hist)
					}
					c.Check(over() == (quit || want >= 0), "end", "%q: session over %v, quit %v, change %d", hist, over(), quit, want)
					if over() {
						break
					}
				}
				if !over() {
					switch {
					case early:
					case timeout > 0:
						<-rctx.Done()
						c.Check(time.Since(started) == timeout, "timeout", "%q: ended after %v instead of %v", hist, time.Since(started), timeout)
					case c.Intn(2) == 0:
						viaCtx = true
						cancel()
						<-rctx.Done()
					default:
						quit = true
						hist += "q"
						kb.ProcessKey(keyOf(c, 'q'))
						time.Sleep(11 * time.Millisecond)
						synctest.Wait()
						c.Check(over(), "end", "%q: quitting did not end the session", hist)
					}
				}
				time.Sleep(13 * time.Second) // what was on its way arrives
				synctest.Wait()
				before = sim.Statistics()
				end = time.Now()
			}
			kb := display.NewKeyboardController()
			r := ui.NewRunner(cfg, sim, d, kb).Run(ctx)
			_ = viaCtx
			calls := fmt.Sprint(d.calls)
			switch {
			case d.runErr != nil:
				c.Check(r != nil && r.Error != nil && errors.Is(r.Error, d.runErr), "display error", "%q: %+v", hist, r)
				c.Check(calls == "[init welcome run close]", "display calls", "%q: %s", hist, calls)
			case want >= 0:
				c.Check(r != nil && r.Error == nil && r.ScaleEvent == want, "change event", "%q (%v %v %v): %+v instead of %d", hist, g, sc, p, r, want)
				c.Check(calls == "[init welcome run close]", "display calls", "%q: %s", hist, calls)
			default:
				c.Check(r != nil && r.Error == nil && r.ScaleEvent == display.EventQuit, "end event", "%q: %+v", hist, r)
				c.Check(calls == "[init welcome run summary close]", "display calls", "%q: %s", hist, calls)
				if len(d.sums) == 1 {
					s := d.sums[0]
					c.Check(s == display.Statistics(before), "summary", "%q: shown %+v, the simulation had %+v", hist, s, before)
				}
			}
			_ = end
			// the updates: regular while the session ran, and nothing but what the simulation showed
			d.mu.Lock()
			n := len(d.updates)
			for i, u := range d.updates {
				if off := d.at[i].Sub(started); off%interval != 0 || (i > 0 && !d.at[i].After(d.at[i-1])) {
					c.Fail("update time", "%q: update %d after %v, interval %v", hist, i, off, interval)
					break
				}
				if u.TargetCoherence <= 0 || u.Coherence < 0 || u.Coherence > 1+1e-9 || u.Timestamp != d.at[i] || u.PendingTasks < 0 {
					c.Fail("update", "%q: %+v", hist, u)
					break
				}
				if u.BatchesProcessed > before.TotalBatches && !contains(hist, 'r') {
					c.Fail("update", "%q: %d batches shown, %d at the end", hist, u.BatchesProcessed, before.TotalBatches)
					break
				}
			}
			d.mu.Unlock()
			c.Cnt("display updates", n)
			c.Cnt("keys", len(hist))
			cancel()
			time.Sleep(32 * time.Second)
			synctest.Wait()
			c.Check(len(d.updates) == n, "update after the end", "%q: %d updates after the session", hist, len(d.updates)-n)
			checkLeft(c, hist)
			if hist != "" {
				c.Key(g, sc, p, hist)
			}
			c.Sample("%v %v %v: %q ends with %s", g, sc, p, hist, calls)
		})
	})

	// what is shown is what the simulation shows, in every field, whenever nothing moves
	m.Each("shown", m.N(500), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			g := goals[c.Intn(len(goals))]
			p := pats[c.Intn(len(pats))]
			sc := scale.Tiny
			if c.I%10 == 7 { // with full batches
				sc, p = scale.Medium, pattern.Burst
			}
			sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: c.PickF(0.5, 0.9)})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			d := &recDisplay{}
			compared := 0
			// also while it runs: the same last batch is shown with the same size
			d.onUpd = func(u display.SimulationSnapshot) {
				s := sim.Snapshot()
				if s.LastBatchTime.Equal(u.LastBatchTime) && time.Now().After(u.LastBatchTime) {
					c.Check(u.LastBatchSize == s.LastBatchSize && u.TargetCoherence == s.TargetCoherence, "batch shown", "%d tasks at %v, shown as %d", s.LastBatchSize, s.LastBatchTime, u.LastBatchSize)
					c.Cnt("updates with the batch compared", 1)
					c.Max("batch compared", u.LastBatchSize)
					if s.LastBatchSize >= 50 {
						c.Cnt("batches of 50 or more compared", 1)
					}
					if s.LastBatchSize >= 100 {
						c.Cnt("batches of 100 or more compared", 1)
					}
				}
			}
			d.run = func(rctx context.Context, kb *display.KeyboardController) {
				for range c.Range(1, 4) {
					time.Sleep(time.Duration(c.Range(1, 6000)) * time.Millisecond)
					if c.Intn(2) == 0 {
						kb.ProcessKey(keyOf(c, 'd'))
					}
					kb.ProcessKey(keyOf(c, 'p'))
					time.Sleep(13 * time.Second)
					d.mu.Lock()
					n := len(d.updates)
					d.mu.Unlock()
					time.Sleep(time.Second)
					synctest.Wait()
					d.mu.Lock()
					s := sim.Snapshot()
					for i := n; i < len(d.updates); i++ {
						u := d.updates[i]
						w := toDisplay(s)
						w.Timestamp, w.ElapsedTime, w.BatchJustSent = u.Timestamp, s.ElapsedTime-s.Timestamp.Sub(u.Timestamp), u.BatchJustSent
						if a, b := fmt.Sprintf("%+v", u), fmt.Sprintf("%+v", w); !c.Check(a == b || s.Disrupted != u.Disrupted, "shown", "%s\ninstead of\n%s", a, b) {
							break
						}
						compared++
					}
					d.mu.Unlock()
					kb.ProcessKey(keyOf(c, ' '))
				}
				kb.ProcessKey(keyOf(c, 'q'))
				<-rctx.Done()
			}
			r := ui.NewRunner(ui.RunnerConfig{UpdateInterval: 100 * time.Millisecond}, sim, d, display.NewKeyboardController()).Run(context.Background())
			c.Check(r.Error == nil, "end", "%v", r.Error)
			time.Sleep(45 * time.Second)
			synctest.Wait()
			checkLeft(c, "shown")
			d.mu.Lock()
			for _, u := range d.updates {
				age := u.Timestamp.Sub(u.LastBatchTime)
				if age < 300*time.Millisecond || age > time.Second {
					c.Check(u.BatchJustSent == (age < time.Second), "mark of a batch", "%v with a batch %v ago", u.BatchJustSent, age)
				}
				c.Max("batch shown", u.LastBatchSize)
			}
			d.mu.Unlock()
			c.Cnt("snapshots compared in every field", compared)
			if compared > 0 {
				c.Key(g, p, c.I)
			}
		})
	})

	// nothing is run when the display cannot start or the controller is of another kind
	m.Each("refused", m.N(40), func(c *Case) {
		synctest.Test(t, func(*testing.T) {
			sim, err := simulation.New(simulation.BuildConfig{Goal: goals[c.Intn(len(goals))], Scale: scale.Tiny, TargetCoherence: 0.8})
			if err != nil {
				c.Fail("construction", "%v", err)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			d := &recDisplay{}
			if c.I%8 == 7 {
				every := c.PickD(0, -1, -time.Second)
				r := ui.NewRunner(ui.RunnerConfig{UpdateInterval: every}, sim, d, display.NewKeyboardController()).Run(ctx)
				c.Check(r != nil && r.Error != nil, "update interval", "%v: %+v", every, r)
				c.Check(len(d.calls) == 0 || d.calls[len(d.calls)-1] == "close", "display calls", "%v: %v", every, d.calls)
			} else if c.I%2 == 0 {
				d.initErr = errors.New("no screen")
				r := ui.NewRunner(ui.RunnerConfig{UpdateInterval: time.Second}, sim, d, display.NewKeyboardController()).Run(ctx)
				c.Check(r != nil && errors.Is(r.Error, d.initErr), "initialization error", "%+v", r)
				c.Check(fmt.Sprint(d.calls) == "[init]", "display calls", "%v", d.calls)
			} else {
				var ctrl display.Controller = display.NewNetworkController("x")
				if c.I%4 == 1 {
					ctrl = display.NewAutomatedController(nil, nil)
				}
				r := ui.NewRunner(ui.RunnerConfig{UpdateInterval: time.Second}, sim, d, ctrl).Run(ctx)
				c.Check(r != nil && r.Error != nil, "other controller", "%+v", r)
				c.Check(d.calls[len(d.calls)-1] == "close", "display calls", "%v", d.calls)
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			checkLeft(c, "refused")
			cancel()
			c.Key(c.I)
		})
	})
}

func contains(s string, r rune) bool {
	for _, x := range s {
		if x == r {
			return true
		}
	}
	return false
}

func toDisplay(s simulation.Snapshot) display.SimulationSnapshot {
	var agents []display.AgentSnapshot
	for _, a := range s.Agents {
		agents = append(agents, display.AgentSnapshot(a))
	}
	return display.SimulationSnapshot{Timestamp: s.Timestamp, ElapsedTime: s.ElapsedTime, Agents: agents, Coherence: s.Coherence, TargetCoherence: s.TargetCoherence,
		PendingTasks: s.PendingTasks, CurrentBatchSize: s.CurrentBatchSize, BatchesProcessed: s.BatchesProcessed, CostWithoutSync: s.CostWithoutSync,
		CostWithSync: s.CostWithSync, Savings: s.Savings, SavingsPercent: s.SavingsPercent, Paused: s.Paused, Disrupted: s.Disrupted, Reset: s.Reset,
		BatchJustSent: s.BatchJustSent, LastBatchTime: s.LastBatchTime, LastBatchSize: s.LastBatchSize}
}
