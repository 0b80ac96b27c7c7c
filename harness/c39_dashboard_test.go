package verifmon

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

type dashConfig struct {
	Goal    goal.Type
	Scale   scale.Size
	Pattern pattern.Type
	Name    string
}

// runDash is the child: a dashboard on its controlling terminal, fed with
// snapshots from fd 3.
func runDash() {
	in := bufio.NewReader(os.NewFile(3, "in"))
	ack := os.NewFile(4, "ack")
	line, _ := in.ReadBytes('\n')
	var cfg dashConfig
	if json.Unmarshal(line, &cfg) != nil {
		os.Exit(9)
	}
	d := display.NewTerminalDisplay().(*display.TerminalDisplay)
	d.SetSimulationName(cfg.Name)
	d.SetGoalName(cfg.Goal.String())
	d.SetGoalAndScale(cfg.Goal, cfg.Scale)
	d.SetPattern(cfg.Pattern)
	if err := d.Initialize(); err != nil {
		fmt.Fprintln(ack, "error", err)
		os.Exit(8)
	}
	d.ShowWelcome()
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	kc := display.NewKeyboardController().(*display.KeyboardController)
	go func() { _ = d.Run(ctx, kc); close(done) }()
	fmt.Fprintln(ack, "ready")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		var s struct {
			Final *display.Statistics
			display.SimulationSnapshot
		}
		if json.Unmarshal(line, &s) != nil {
			os.Exit(7)
		}
		if s.Final != nil {
			d.ShowSummary(*s.Final)
		} else {
			d.Update(s.SimulationSnapshot)
		}
		fmt.Fprintln(ack, "done")
	}
	cancel()
	<-done
	_ = d.Close()
	os.Exit(0)
}

type dash struct {
	cmd    *exec.Cmd
	scr    *screen
	master *os.File
	in     *os.File
	ack    *bufio.Reader
	files  []*os.File
}

func startDash(c *Case, cfg dashConfig) *dash {
	master, slave, err := openPTY(100, 420)
	if err != nil {
		panic("harness")
	}
	inR, inW, _ := os.Pipe()
	ackR, ackW, _ := os.Pipe()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-test.run", "^TestProp$")
	cmd.Env = append(os.Environ(), "VERIF_HELPER=dash", "TERM=xterm-256color", "LC_ALL=C.UTF-8", "COLORTERM=", "VERIF_OUT=")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	cmd.ExtraFiles = []*os.File{inR, ackW}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		panic("harness")
	}
	_ = slave.Close()
	_ = inR.Close()
	_ = ackW.Close()
	d := &dash{cmd: cmd, scr: newScreen(100, 420), master: master, in: inW, ack: bufio.NewReader(ackR), files: []*os.File{master, inW, ackR}}
	go d.scr.pump(master)
	d.send(c, cfg)
	return d
}

func (d *dash) send(c *Case, v any) bool {
	b, _ := json.Marshal(v)
	if _, err := d.in.Write(append(b, '\n')); err != nil {
		return false
	}
	got := make(chan string, 1)
	go func() { l, _ := d.ack.ReadString('\n'); got <- l }()
	select {
	case l := <-got:
		return strings.HasPrefix(l, "ready") || strings.HasPrefix(l, "done")
	case <-time.After(60 * time.Second):
		return false
	}
}

func (d *dash) stop() error {
	_ = d.in.Close()
	done := make(chan error, 1)
	go func() { done <- d.cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		_ = d.cmd.Process.Kill()
		<-done
		err = fmt.Errorf("did not end")
	}
	_ = d.master.Close()
	return err
}

var dashGoals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
var dashPats = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}

// dist0 is the distance of a phase from zero around the circle.
func dist0(p float64) float64 { return angDist(p, 0) }

// light is the indicator of a workload, "" at a boundary.
func light(g goal.Type, p float64) string {
	at := func(x, r float64) bool { return math.Abs(p-x) < r }
	for _, b := range []float64{0.3, 0.5, 1, math.Pi - 0.5, math.Pi + 0.5, math.Pi/2 - 0.5, math.Pi/2 + 0.5, 3*math.Pi/2 - 0.5, 3*math.Pi/2 + 0.5, 1.5, 2.5, 3.5, 4.5, twoPi - 0.3, twoPi - 0.5, twoPi - 1} {
		if at(b, 1e-9) {
			return ""
		}
	}
	switch g {
	case goal.DistributeLoad, goal.RecoverFromFailure:
		switch {
		case dist0(p) < 0.5:
			return "🔴"
		case at(math.Pi, 0.5) || at(math.Pi/2, 0.5) || at(3*math.Pi/2, 0.5):
			return "🟢"
		}
		return "🟡"
	case goal.SaveEnergy:
		switch {
		case dist0(p) < 0.3:
			return "🟡"
		case at(math.Pi, 0.5):
			return "🟢"
		}
		return "🔴"
	case goal.ReachConsensus:
		if at(0, 0.5) || at(2, 0.5) || at(4, 0.5) {
			return "🟢"
		}
		return "🟡"
	}
	switch d := dist0(p); {
	case d < 0.5:
		return "🟢"
	case d < 1:
		return "🟡"
	}
	return "🔴"
}

type wants struct {
	scr  *screen
	bad  []string
	name string
}

// has wants a line of a panel.
func (w *wants) has(panel, line string) {
	l, ok := w.scr.panel(panel)
	if !ok {
		w.bad = append(w.bad, "no panel"+panel)
		return
	}
	for _, x := range l {
		if strings.TrimSpace(x) == line {
			return
		}
	}
	w.bad = append(w.bad, fmt.Sprintf("%s lacks %q", panel, line))
}

func (w *wants) hasNot(panel string, part string) {
	l, _ := w.scr.panel(panel)
	if strings.Contains(strings.Join(l, "\n"), part) {
		w.bad = append(w.bad, fmt.Sprintf("%s shows %q", panel, part))
	}
}

func (w *wants) yes(ok bool, format string, args ...any) {
	if !ok {
		w.bad = append(w.bad, fmt.Sprintf(format, args...))
	}
}

// gauge wants a percentage, cut off or rounded, with a label.
func (w *wants) gauge(panel string, value float64, label string) {
	l, _ := w.scr.panel(panel)
	text := strings.Join(l, " ")
	for _, k := range []float64{math.Floor(value), math.Ceil(value)} {
		if strings.Contains(" "+strings.NewReplacer("█", " ", "░", " ").Replace(text), fmt.Sprintf(" %d%% (%s)", int(k), label)) {
			return
		}
	}
	w.bad = append(w.bad, fmt.Sprintf("%s is %q instead of %.2f%% (%s)", panel, text, value, label))
}

// lamp wants the filled part of the gauge of a panel to be green, yellow or red.
func (w *wants) lamp(panel string, want string) {
	for _, l := range w.scr.grid(panel) {
		for _, c := range l {
			if c.r == '█' {
				got := map[int]string{1: "red", 2: "green", 3: "yellow"}[c.colour()]
				w.yes(got == want, "the gauge in %s is %q (%d) instead of %s", panel, got, c.colour(), want)
				return
			}
		}
	}
}

func among(x float64, th ...float64) bool {
	for _, t := range th {
		if math.Abs(x-t) < 1e-9 {
			return true
		}
	}
	return false
}

// marks counts a rune in a panel above its legend.
func (w *wants) marks(panel, end string) map[rune]int {
	out := map[rune]int{}
	l, _ := w.scr.panel(panel)
	for _, x := range l {
		if end != "" && strings.Contains(x, end) {
			break
		}
		for _, r := range x {
			out[r]++
		}
	}
	return out
}

// bars wants the bar of every agent in the phase panel: as high as the sine of
// its phase, and coloured by alignment: green near the swarm's mean phase and red
// away from it or, in a scattered swarm, alike exactly in the same third of the
// circle.
func (w *wants) bars(s display.SimulationSnapshot) {
	g := w.scr.grid(" SWARM DYNAMICS ")
	base, left := -1, 0
	for y := range g {
		run := 0
		for x, c := range g[y] {
			if c.r == '─' {
				if run++; run == 35 && base < 0 {
					base, left = y, x-34
				}
			} else {
				run = 0
			}
		}
	}
	if base < 8 {
		w.bad = append(w.bad, "no base line under the bars")
		return
	}
	sx, sy := 0.0, 0.0
	for _, a := range s.Agents {
		sx += math.Cos(a.Phase) / float64(len(s.Agents))
		sy += math.Sin(a.Phase) / float64(len(s.Agents))
	}
	mag, mean := math.Hypot(sx, sy), math.Atan2(sy, sx)
	colours := map[string]int{}
	farGreen, nearRed := -1.0, 9.0
	for i, a := range s.Agents {
		if i >= 35 {
			break
		}
		h := (math.Sin(a.Phase) + 1) / 2 * 8
		got, col := 0, -2
		for y := base - 8; y < base; y++ {
			if g[y][left+i].r == '█' {
				got++
				col = g[y][left+i].colour()
			}
		}
		w.yes(got >= int(math.Max(0, h-1e-9)) && got <= int(h+1e-9), "the bar of agent %d at phase %v is %d high instead of %.3f", i, a.Phase, got, h)
		if got == 0 || math.Abs(mag-0.3) < 1e-9 {
			continue
		}
		kind := ""
		if mag < 0.3 {
			p := math.Remainder(a.Phase, twoPi)
			if k := (p + math.Pi) * 3 / twoPi; math.Abs(k-math.Round(k)) > 1e-9 {
				kind = []string{"first third", "second third", "last third"}[int(k)]
			}
		} else {
			d := angDist(a.Phase, mean)
			switch col {
			case 2:
				farGreen = math.Max(farGreen, d)
			case 1:
				nearRed = math.Min(nearRed, d)
			default:
				w.bad = append(w.bad, fmt.Sprintf("the bar of agent %d has colour %d", i, col))
			}
		}
		if kind == "" {
			continue
		}
		if was, ok := colours[kind]; ok && was != col {
			w.bad = append(w.bad, fmt.Sprintf("bars of agents in the %s have colours %d and %d", kind, was, col))
		}
		colours[kind] = col
	}
	w.yes(farGreen <= nearRed+1e-9, "an agent %v from the swarm's phase %v is green, one only %v away is red", farGreen, mean, nearRed)
	for a, x := range colours {
		for b, y := range colours {
			w.yes(a == b || x != y, "bars of agents in the %s and the %s have the same colour", a, b)
		}
	}
}

// judge lists what the screen does not show of a snapshot.
func judge(scr *screen, cfg dashConfig, s display.SimulationSnapshot, special bool) []string {
	w := &wants{scr: scr}
	n := len(s.Agents)
	f := fmt.Sprintf
	yn := map[bool]string{true: "YES", false: "NO"}
	coh := s.Coherence

	// what runs
	if e := s.ElapsedTime; e < time.Minute {
		w.has(" CONFIGURATION ", f("⏱️ Elapsed: %.1fs", e.Seconds()))
	} else {
		w.has(" CONFIGURATION ", f("⏱️ Elapsed: %.1fm", e.Minutes()))
	}
	w.has(" CONFIGURATION ", "🚀 Goal: "+cfg.Goal.String())
	w.has(" CONFIGURATION ", "📊 Pattern: "+cfg.Pattern.String())
	w.has(" CONFIGURATION ", "📈 Scale: "+cfg.Name)

	// the workloads
	rows, _ := scr.panel(" WORKLOADS ")
	start := len(rows)
	for i, r := range rows {
		if strings.HasPrefix(r, "────") {
			start = i + 1
		}
	}
	rows = rows[min(start, len(rows)):]
	for i := 0; i < n && i < 10; i++ {
		a := s.Agents[i]
		if i >= len(rows) {
			w.bad = append(w.bad, f("workload %d is missing", i))
			break
		}
		q := f("%d", a.PendingTasks)
		if a.PendingTasks > 10 {
			q += "!"
		}
		t := a.Type
		if len(t) > 11 {
			t = t[:11]
		}
		l := light(cfg.Goal, a.Phase)
		got := strings.Fields(rows[i])
		ok := len(got) == 5 && got[0] == a.Icon && got[1] == t && (l == "" || got[2] == l) && got[3] == q && got[4] == f("%d", a.BatchesSent)
		w.yes(ok, "workload %d is shown as %q: %s %s at %.6f, queue %s, sent %d, should be %s", i, rows[i], a.Icon, t, a.Phase, q, a.BatchesSent, l)
	}
	more := strings.Join(rows, "\n")
	if n > 10 {
		w.yes(strings.Contains(more, f("... and %d more", n-10)), "not %d more workloads: %q", n-10, more)
	} else {
		w.yes(!strings.Contains(more, "more") && len(strings.Fields(more)) == 5*n, "%d workloads, shown %q", n, more)
	}

	// the state
	const M = " METRICS "
	w.has(M, "Paused: "+yn[s.Paused])
	w.has(M, "Disrupted: "+yn[s.Disrupted])
	w.has(M, "Resetting: "+yn[s.Reset])
	quiet, burst, active := 0, 0, 0
	for _, a := range s.Agents {
		switch a.ActivityLevel {
		case "quiet":
			quiet++
		case "burst":
			burst++
		case "active":
			active++
		}
	}
	share := func(k int) float64 { return float64(k) / float64(n) * 100 }
	word := func(x float64, th []float64, words ...string) string {
		for i, t := range th {
			if x >= t {
				return words[i]
			}
		}
		return words[len(th)]
	}
	const G, T = " CURRENT COHERENCE ", " TARGET COHERENCE "
	switch cfg.Goal {
	case goal.MinimizeAPICalls:
		w.has(M, f("%s %.0f%%", word(coh, []float64{0.9, 0.7}, "🟢 In sync!", "🟡 Syncing...", "🔴 Not synced"), coh*100))
		w.has(M, word(coh, []float64{0.9, 0.7}, "(sending together)", "(getting aligned)", "(sending separately)"))
		if s.CurrentBatchSize > 0 {
			w.has(M, "(waiting for beat)")
			w.has(M, f("📦 Collecting: %d tasks", s.CurrentBatchSize))
		} else {
			w.has(M, "⏳ Waiting for tasks...")
			w.hasNot(M, "Collecting")
		}
		w.has(M, f("✅ Sent: %d batches", s.BatchesProcessed))
		if s.BatchJustSent {
			w.has(M, f("✨ BATCH SENT! (%d items)", s.LastBatchSize))
		} else {
			w.hasNot(M, "BATCH SENT")
		}
		w.gauge(G, coh*100, "Sync Level")
		w.gauge(T, s.TargetCoherence*100, "Target")
	case goal.DistributeLoad:
		// (what is wanted here is little coherence)
		if !among(coh, 0.3, 0.5) {
			w.has(M, "Distribution: "+word(-coh, []float64{-0.3, -0.5}, "BALANCED", "FAIR", "IMBALANCED"))
		}
		w.has(M, f("Phase Spread: %.1f%%", (1-coh)*100))
		w.has(M, f("Load/Server: %.1f%%", 100/float64(n)))
		w.gauge(G, (1-coh)*100, "Distribution")
		w.gauge(T, (1-s.TargetCoherence)*100, "Target Spread")
	case goal.ReachConsensus:
		w.has(M, "Status: "+word(coh, []float64{0.95, 0.8}, "CONSENSUS!", "CONVERGING", "NO CONSENSUS"))
		w.has(M, f("Agreement: %.1f%%", coh*100))
		w.has(M, f("Voting Rounds: %d", int(s.ElapsedTime.Seconds()*2)))
		w.gauge(G, coh*100, "Agreement")
		w.gauge(T, 95, "Consensus")
	case goal.MinimizeLatency:
		w.has(M, "Timing: "+word(coh, []float64{0.9, 0.7}, "PREDICTABLE", "FAIR", "UNPREDICTABLE"))
		w.has(M, "P50 Latency: 10.0ms")
		w.has(M, f("P95 Latency: %.1fms", 10+(1-coh)*20))
		w.has(M, f("Jitter: ±%.1fms", (1-coh)*10))
		w.gauge(G, coh*100, "Predictability")
		w.gauge(T, s.TargetCoherence*100, "Target")
	case goal.SaveEnergy:
		w.has(M, f("Sensors Idle: %.0f%%", share(quiet)))
		if !among(share(quiet), 50, 70) {
			w.has(M, "Energy Use: "+word(share(quiet), []float64{70, 50}, "EFFICIENT", "MODERATE", "HIGH DRAIN"))
		}
		w.has(M, f("Est. Battery: %.0fh", 12+24*share(quiet)/100))
		w.gauge(G, share(quiet), "Idle %")
		w.gauge(T, 70, "Target Idle")
	case goal.MaintainRhythm:
		w.has(M, "Status: "+word(coh, []float64{0.9, 0.7}, "ON SCHEDULE", "DRIFTING", "OFF SCHEDULE"))
		w.has(M, f("Phase Lock: %.1f%%", coh*100))
		w.has(M, f("Timing Drift: ±%.0fms", (1-coh)*1000))
		w.gauge(G, coh*100, "Phase Lock")
		w.gauge(T, s.TargetCoherence*100, "Target")
	case goal.RecoverFromFailure:
		st := word(coh, []float64{0.8, 0.6}, "RESILIENT", "PARTIAL", "VULNERABLE")
		if s.Disrupted {
			st = "RECOVERING"
		}
		w.has(M, "Status: "+st)
		w.has(M, f("Sync Health: %.1f%%", coh*100))
		if !s.Disrupted {
			w.has(M, "Recovery Time: "+word(coh, []float64{0.8, 0.6}, "<1s", "~2s", "N/A"))
			w.gauge(G, coh*100, "System Health")
		}
		w.gauge(T, 80, "Healthy")
	case goal.AdaptToTraffic:
		load := share(burst + active)
		if !among(load, 30) {
			st := "SLOW"
			if coh >= 0.8 && load > 30 {
				st = "RESPONSIVE"
			} else if coh >= 0.6 {
				st = "ADAPTING"
			}
			w.has(M, "Adaptation: "+st)
		}
		w.has(M, f("Current Load: %.0f%%", load))
		w.has(M, f("Scaled Units: %d/%d", burst+active, n))
		w.gauge(G, load, "Utilization")
		w.gauge(T, 60, "Optimal")
	}

	// (whether the gauge says that the target is met, away from its edges)
	pct, off := 100*coh, func(x float64, th ...float64) bool {
		for _, t := range th {
			if math.Abs(x-t) < 1+1e-6 {
				return false
			}
		}
		return true
	}
	switch cfg.Goal {
	case goal.MinimizeAPICalls:
		w.lamp(G, word(coh, []float64{s.TargetCoherence}, "green", "red"))
	case goal.MinimizeLatency, goal.MaintainRhythm:
		if off(pct, 100*s.TargetCoherence) {
			w.lamp(G, word(coh, []float64{s.TargetCoherence}, "green", "red"))
		}
	case goal.DistributeLoad:
		if !among(coh, 0.5) {
			w.lamp(G, word(coh, []float64{0.5}, "red", "green"))
		}
	case goal.ReachConsensus:
		if off(pct, 95, 80) {
			w.lamp(G, word(pct, []float64{95, 80}, "green", "yellow", "red"))
		}
	case goal.SaveEnergy:
		if x := share(quiet); off(x, 70, 50) {
			w.lamp(G, word(x, []float64{70, 50}, "green", "yellow", "red"))
		}
	case goal.RecoverFromFailure:
		if !s.Disrupted && off(pct, 80, 60) {
			w.lamp(G, word(pct, []float64{80, 60}, "green", "yellow", "red"))
		}
	case goal.AdaptToTraffic:
		if x := share(burst + active); off(x, 40, 80, 90) {
			w.lamp(G, word(x, []float64{90, 80, 40}, "red", "yellow", "green", "yellow"))
		}
	}

	// the money
	const E = " ECONOMICS "
	w.has(E, f("$%.2f (individual calls)", s.CostWithoutSync))
	w.has(E, f("$%.2f (batched calls)", s.CostWithSync))
	w.has(E, f("💎 SAVINGS: $%.2f (%.1f%%)", s.Savings, s.SavingsPercent))

	// the swarm
	const S = " SWARM DYNAMICS "
	sum := func(pred func(p float64) bool) int {
		k := 0
		for _, a := range s.Agents {
			if pred(a.Phase) {
				k++
			}
		}
		return k
	}
	edge := func(th ...float64) bool {
		return sum(func(p float64) bool { return among(dist0(p), th...) }) > 0
	}
	panel, _ := scr.panel(S)
	lineOf := func(label string) string {
		for _, l := range panel {
			if strings.HasPrefix(l, label) {
				return l
			}
		}
		return ""
	}
	count := func(label string, want int) {
		l := lineOf(label)
		fl := strings.Fields(l)
		w.yes(len(fl) > 1 && fl[len(fl)-1] == f("%d", want), "%s shows %q instead of %s %d", S, l, label, want)
	}
	// (a bar as long as its figure, cut off or rounded)
	bar := func(label string, x float64) {
		l := lineOf(label)
		got := strings.Count(l, "█")
		w.yes(math.Abs(float64(got)-x) < 1+1e-6, "%s shows %q, a bar of %d instead of %.2f", S, l, got, x)
	}
	meter := func(label string, percent float64) {
		bar(label, percent/5)
		l := lineOf(label)
		w.yes(strings.Count(l, "█")+strings.Count(l, "░") == 20 && strings.HasSuffix(l, f("] %.0f%%", percent)), "%s shows %q instead of %.1f%%", S, l, percent)
	}
	switch cfg.Goal {
	case goal.MinimizeAPICalls:
		lo, hi := 0, 0
		for i, a := range s.Agents {
			if i < 35 {
				h := (math.Sin(a.Phase) + 1) / 2 * 8
				lo += int(math.Max(0, h-1e-9))
				hi += int(h + 1e-9)
			}
		}
		got := w.marks(S, "Sync:")['█']
		w.yes(got >= lo && got <= hi, "%s shows %d blocks of phases instead of %d to %d", S, got, lo, hi)
		w.bars(s)
		l := lineOf("Sync: ")
		w.yes(strings.HasPrefix(l, f("Sync: %.1f%%", coh*100)), "%s shows %q at %.4f", S, l, coh)
		w.yes(strings.Contains(l, "BATCHING") == (coh >= 0.9), "%s shows %q at %.4f", S, l, coh)
	case goal.DistributeLoad:
		if !edge(0, math.Pi/2, math.Pi) {
			var k [4]int
			for _, a := range s.Agents {
				p := math.Mod(a.Phase+math.Pi, twoPi) // in [0, 2π)
				k[min(3, int(p/(math.Pi/2)))]++
			}
			mean, dev := float64(n)/4, 0.0
			for i := range k {
				count(f("Server%d:", i+1), k[i])
				if x := 20 * float64(k[i]) / float64(n/4+1); x <= 20 {
					bar(f("Server%d:", i+1), x)
				}
				dev += (float64(k[i]) - mean) * (float64(k[i]) - mean) / 4
			}
			if dev = math.Sqrt(dev); !among(dev, 2) {
				w.has(S, "Status: "+map[bool]string{true: "IMBALANCED", false: "BALANCED"}[dev > 2])
			}
		}
	case goal.ReachConsensus:
		same := sum(func(p float64) bool { return p == s.Agents[0].Phase })
		l := lineOf("Agreement:")
		var got float64
		if i := strings.LastIndex(l, "]"); i >= 0 {
			_, _ = fmt.Sscanf(l[i+1:], "%f%%", &got)
		}
		w.yes(got >= math.Floor(share(same)) && got <= 100 && got*14 >= 99, "%s shows %q, at least %d of %d agree", S, l, same, n)
		w.yes(math.Abs(float64(strings.Count(l, "█"))-got/5) < 1.2 && strings.Count(l, "█")+strings.Count(l, "░") == 20, "%s shows %q", S, l)
		if got >= 96 {
			w.has(S, "✓ CONSENSUS REACHED!")
		} else if got <= 94 {
			w.has(S, "⟳ Voting in progress...")
		}
	case goal.MinimizeLatency:
		if !edge(0, 2) {
			near := sum(func(p float64) bool { return dist0(p) < 2 })
			for label, k := range map[string]int{"0-10ms": 0, "10-20ms": near, "20-30ms": n - near, "30-40ms": 0, "40ms+": 0} {
				count(label, k)
				bar(label, 30*float64(k)/float64(n))
			}
		}
	case goal.SaveEnergy:
		meter("Battery:", share(quiet))
		w.has(S, f("💤 Sleeping: %d sensors", quiet))
		w.has(S, f("📡 Active: %d sensors", n-quiet))
		if !among(share(quiet), 70) {
			w.has(S, map[bool]string{true: "✓ EFFICIENT", false: "⚠ HIGH DRAIN"}[share(quiet) > 70])
		}
	case goal.MaintainRhythm:
		if !edge(0.1, math.Pi) {
			on := sum(func(p float64) bool { return dist0(p) < 0.1 })
			late := sum(func(p float64) bool { return dist0(p) > 0.1 && math.Mod(p, twoPi) < math.Pi })
			early := n - on - late
			w.has(S, f("On Schedule: %d/%d", on, n))
			got := w.marks(S, "On Schedule")
			top := float64(max(on, late, early))
			for _, b := range []struct {
				r rune
				k int
			}{{'◀', early}, {'█', on}, {'▶', late}} {
				x := 15 * float64(b.k) / top
				w.yes(math.Abs(float64(got[b.r])-x) < 1+1e-6, "%s shows %d %c for %d (%d early, %d on time, %d late)", S, got[b.r], b.r, b.k, early, on, late)
			}
		}
	case goal.RecoverFromFailure:
		if !edge(1, 2) {
			h := sum(func(p float64) bool { return dist0(p) < 1 })
			fail := 0
			if s.Disrupted {
				fail = sum(func(p float64) bool { return dist0(p) > 2 })
				w.has(S, "⚠ RECOVERING...")
			} else {
				w.yes((lineOf("✓ FULLY RESILIENT") != "") == (h == n), "%s: %d of %d healthy: %q", S, h, n, panel)
			}
			count("Healthy:", h)
			bar("Healthy:", 20*float64(h)/float64(n))
			if d := n - h - fail; d > 0 {
				count("Degraded:", d)
				bar("Degraded:", 20*float64(d)/float64(n))
			} else {
				w.hasNot(S, "Degraded:")
			}
			if fail > 0 {
				count("Failed:", fail)
				bar("Failed:", 20*float64(fail)/float64(n))
			} else {
				w.hasNot(S, "Failed:")
			}
		}
	case goal.AdaptToTraffic:
		meter("Capacity:", share(n-quiet))
		w.has(S, f("🟢 Idle: %d units", quiet))
		w.has(S, f("🟡 Normal: %d units", n-quiet-burst))
		w.has(S, f("🔴 Busy: %d units", burst))
		if u := share(n - quiet); !among(u, 30, 80) {
			w.has(S, word(u, []float64{80, 30}, "⬆ SCALE UP", "✓ OPTIMAL", "⬇ SCALE DOWN"))
		}
		t := s.TargetCoherence
		if !among(coh, t, 0.9*t) {
			w.has(S, word(coh, []float64{t, 0.9 * t}, "Agents synchronized!", "Agents learning...", "Agents scattered."))
			w.has(S, word(coh, []float64{t, 0.9 * t}, "Batching effective.", "Batching improving.", "Mostly individual calls."))
		}
	}

	// the picture: one mark per agent, as far from the target as it is
	got := w.marks(" SWARM MOVEMENT ", "Synced")
	drawn := got['●'] + got['o'] + got['∙']
	w.yes(drawn <= min(n, 20), "%d agents drawn of %d", drawn, n)
	// (on a ring that narrows with coherence, half as high as it is wide)
	ring := 5.0
	if coh > 0.5 {
		ring = 2 + 3*(1-coh)
	}
	cx, cy := -1, -1
	for y, l := range w.scr.grid(" SWARM MOVEMENT ") {
		for x, c := range l {
			if c.r == '⊕' && cx < 0 {
				cx, cy = x, y
			}
		}
	}
	for y, l := range w.scr.grid(" SWARM MOVEMENT ") {
		for x, c := range l {
			if (c.r == '●' || c.r == 'o' || c.r == '∙') && y < cy+6 {
				w.yes(math.Abs(float64(x-cx)) <= ring+0.51 && math.Abs(float64(y-cy)) <= ring/2+0.51, "an agent is drawn at %d, %d from the target at coherence %v", x-cx, y-cy, coh)
			}
		}
	}
	if !edge(0.5, 1) {
		var k [3]int
		for i, a := range s.Agents {
			if i >= 20 {
				break
			}
			switch d := dist0(a.Phase); {
			case d < 0.5:
				k[0]++
			case d < 1:
				k[1]++
			default:
				k[2]++
			}
		}
		for i, r := range []rune{'●', 'o', '∙'} {
			w.yes(got[r] <= k[i], "%d %c drawn for %d agents", got[r], r, k[i])
		}
		// agents may be drawn over one another, but those on the ring do not vanish
		w.yes(drawn > 0 || n == 1 || coh > 0.5, "no agent drawn")
	}
	return w.bad
}

// C39: the dashboard shows the simulation as it is.
func TestProp(t *testing.T) {
	if os.Getenv("VERIF_HELPER") == "dash" {
		runDash()
	}
	m := Start(t, "C39", "sessions of the real dashboard on a pseudo terminal for every goal, scale and pattern, fed with generated snapshots (on and off every boundary), whose screens are read back and compared with the snapshot; non-trivial when a snapshot was shown; distinct by configuration and snapshot")
	defer m.Finish()
	types := []string{"DataETL", "Leader", "LoadBalancer1", "CacheServer2", "A", "Elevenchars", "Twelve_chars"}
	icons := []string{"🤖", "🌐", "💾", "📊"}
	m.Each("session", m.N(240), func(c *Case) {
		g := dashGoals[c.I%8]
		sc := []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}[c.Intn(5)]
		p := dashPats[c.Intn(5)]
		cfg := dashConfig{g, sc, p, f0("NAME %d OF A SWARM", c.Intn(1000))}
		d := startDash(c, cfg)
		if !eventually(30*time.Second, func() bool { _, ok := d.scr.panel(" SCENARIO "); return ok }) {
			c.Fail("welcome", "%+v: nothing is shown", cfg)
			_ = d.stop()
			return
		}
		// the assessment agrees with the tables
		q := pattern.GetQualifier(int(g), sc.DefaultAgentCount(), p)
		verdict := map[string]string{"optimal": "Optimal", "excellent": "Good", "good": "Good", "fair": "Fair", "poor": "Poor"}[q]
		mark := map[string]string{"Optimal": "✓", "Good": "✓", "Fair": "⚠", "Poor": "✗"}[verdict]
		fits := g.IsRecommendedForSize(sc.DefaultAgentCount())
		var conf, scen string
		ok := eventually(20*time.Second, func() bool {
			a, _ := d.scr.panel(" CONFIGURATION ")
			b, _ := d.scr.panel(" SCENARIO ")
			conf, scen = strings.Join(a, "\n"), strings.Join(b, "\n")
			return strings.Contains(conf, "Goal: "+g.String()+"\n") && strings.Contains(conf, "Pattern: "+p.String()+" "+mark) &&
				strings.Contains(conf, "Scale: "+cfg.Name+" "+map[bool]string{true: "✓", false: "✗"}[fits]) &&
				strings.Contains(scen, "Pattern: "+verdict) && strings.Contains(scen, "Scale: "+map[bool]string{true: "Good", false: "Poor"}[fits])
		})
		c.Check(ok, "assessment", "%v, %v (%s), %v (recommended: %v): %s / %s", g, p, q, sc, fits, conf, scen)
		n0 := c.PickI(1, 2, 5, 9, 10, 11, 12, 20, 20, 20, 30, 50, 50)
		for k := range c.Range(3, 7) {
			n := n0
			special := c.Intn(3) == 0
			around := c.Float64() * twoPi
			width := c.PickF(0.01, 0.4, 2, math.Pi)
			s := display.SimulationSnapshot{
				ElapsedTime: time.Duration(c.Int63n(int64(c.PickI(60, 60, 4000)) * int64(time.Second))),
				Coherence:   c.PickF(c.Float64(), c.Float64(), c.Float64(), 0, 1, 0.2, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.85+c.Float64()*0.15), TargetCoherence: c.PickF(0.2, 0.4, 0.6, 0.65, 0.7, 0.8, 0.85, 0.9, c.Float64()),
				CurrentBatchSize: c.PickI(0, 0, 1, c.Intn(500)), BatchesProcessed: c.PickI(0, c.Intn(20), c.Intn(100000)),
				CostWithoutSync: c.Float64() * c.PickF(0, 1, 100, 5000), SavingsPercent: c.Float64()*120 - 20,
				Paused: c.Intn(3) == 0, Disrupted: c.Intn(3) == 0, Reset: c.Intn(3) == 0, BatchJustSent: c.Intn(2) == 0, LastBatchSize: c.Intn(300), LastBatchTime: time.Now(),
			}
			s.Savings = s.CostWithoutSync * s.SavingsPercent / 100
			s.CostWithSync = s.CostWithoutSync - s.Savings
			quietShare, burstShare := c.Float64(), c.Float64()
			for i := range n {
				ph := around + (c.Float64()*2-1)*width
				if special {
					ph = c.PickF(0, 0.05, 0.45, 0.95, 1.5, 2, 3, math.Pi, 4, 4.7, 5, 5.5, 6.2, twoPi-0.05, twoPi-1e-6, ph)
				}
				ph = math.Mod(math.Mod(ph, twoPi)+twoPi, twoPi)
				a := display.AgentSnapshot{ID: f0("a%d", i), Type: types[c.Intn(len(types))], Icon: icons[c.Intn(len(icons))], Phase: ph, PendingTasks: c.PickI(0, 9, 10, 11, c.Intn(2000)), BatchesSent: c.Intn(9000), ActivityLevel: "steady"}
				switch {
				case c.Float64() < quietShare:
					a.ActivityLevel = "quiet"
				case c.Float64() < burstShare:
					a.ActivityLevel = []string{"burst", "active"}[c.Intn(2)]
				}
				s.Agents = append(s.Agents, a)
			}
			if !d.send(c, s) {
				c.Fail("update", "%+v: the dashboard did not take %+v", cfg, s)
				break
			}
			var bad []string
			ok := eventually(15*time.Second, func() bool {
				bad = judge(d.scr, cfg, s, special)
				return len(bad) == 0
			})
			if !c.Check(ok, "not shown", "%v, update %d, coherence %v, target %v, disrupted %v: %s", g, k, s.Coherence, s.TargetCoherence, s.Disrupted, strings.Join(bad, "; ")) {
				break
			}
			c.Cnt("snapshots shown", 1)
			c.Key(c.I, k)
		}
		// the menu marks the goal in force and what suits it
		menu := func(text string, want bool) (b, found, ok bool) {
			ok = eventually(5*time.Second, func() bool {
				b, found = d.scr.boldAt(text, 4)
				return found && b == want
			})
			return b, found, ok
		}
		names := map[goal.Type]string{goal.MinimizeAPICalls: "[B] Batch", goal.DistributeLoad: "[L] Load", goal.ReachConsensus: "[C] Consensus", goal.MinimizeLatency: "[T] Latency", goal.SaveEnergy: "[E] Energy", goal.MaintainRhythm: "[M] Rhythm", goal.RecoverFromFailure: "[F] Failure", goal.AdaptToTraffic: "[A] Traffic"}
		for _, x := range dashGoals {
			b, found, ok := menu(names[x], x == g)
			c.Check(ok, "menu", "%v: %q found %v, bold %v", g, names[x], found, b)
		}
		for x, name := range map[pattern.Type]string{pattern.HighFrequency: "[H] High-Freq", pattern.Burst: "[U] Burst", pattern.Steady: "[Y] Steady", pattern.Mixed: "[X] Mixed", pattern.Sparse: "[Z] Sparse"} {
			q := pattern.GetQualifier(int(g), sc.DefaultAgentCount(), x)
			b, found, ok := menu(name, q == "optimal" || q == "excellent" || q == "good")
			c.Check(ok, "menu", "%v at %v: %q is %s, found %v, bold %v", g, sc, name, q, found, b)
		}
		for x, name := range map[scale.Size]string{scale.Tiny: "[1] Tiny", scale.Small: "[2] Small", scale.Medium: "[3] Medium", scale.Large: "[4] Large", scale.Huge: "[5] Huge"} {
			b, found, ok := menu(name, g.IsRecommendedForSize(x.DefaultAgentCount()))
			c.Check(ok, "menu", "%v: %q found %v, bold %v", g, name, found, b)
		}
		// the summary takes the place of the last snapshot
		st := display.Statistics{TotalAPICalls: c.Intn(1000000), TotalBatches: c.Intn(10000), AverageBatchSize: c.Float64() * 200, PeakCoherence: c.Float64(), TimeToConverge: time.Duration(c.Int63n(int64(c.PickI(60, 60, 4000)) * int64(time.Second)))}
		if d.send(c, map[string]any{"Final": st}) {
			var bad []string
			ok := eventually(15*time.Second, func() bool {
				w := &wants{scr: d.scr}
				const M = " METRICS "
				w.has(M, f0("API Calls (individual): %d", st.TotalAPICalls))
				w.has(M, f0("API Calls (batched): %d", st.TotalBatches))
				w.has(M, f0("Average Batch Size: %.1f", st.AverageBatchSize))
				w.has(M, f0("Peak Coherence: %.1f%%", st.PeakCoherence*100))
				if e := st.TimeToConverge; e < time.Minute {
					w.has(M, f0("Time to Converge: %.1fs", e.Seconds()))
				} else {
					w.has(M, f0("Time to Converge: %.1fm", e.Minutes()))
				}
				w.hasNot(M, "Paused:")
				w.hasNot(" WORKLOADS ", "more")
				bad = w.bad
				return len(bad) == 0
			})
			c.Check(ok, "summary", "%v: %+v: %s", cfg, st, strings.Join(bad, "; "))
		} else {
			c.Fail("summary", "%v: the dashboard did not take the summary", cfg)
		}
		err := d.stop()
		c.Check(err == nil, "end", "%+v: %v", cfg, err)
		c.Cnt("sessions", 1)
	})
}

func f0(format string, args ...any) string { return fmt.Sprintf(format, args...) }
