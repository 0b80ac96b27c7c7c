package verifmon

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
	"github.com/carlisia/bio-adapt/simulations/emerge/ui"
)

// C38: the simulation program does what its user asks for.

var (
	allScales = []scale.Size{scale.Tiny, scale.Small, scale.Medium, scale.Large, scale.Huge}
	allGoals  = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus, goal.MinimizeLatency, goal.SaveEnergy, goal.MaintainRhythm, goal.RecoverFromFailure, goal.AdaptToTraffic}
	allPats   = []pattern.Type{pattern.HighFrequency, pattern.Burst, pattern.Steady, pattern.Mixed, pattern.Sparse}
	scaleKeys = map[rune]scale.Size{'1': scale.Tiny, '2': scale.Small, '3': scale.Medium, '4': scale.Large, '5': scale.Huge}
	goalKeys  = map[rune]goal.Type{'b': goal.MinimizeAPICalls, 'l': goal.DistributeLoad, 'c': goal.ReachConsensus, 't': goal.MinimizeLatency, 'e': goal.SaveEnergy, 'm': goal.MaintainRhythm, 'f': goal.RecoverFromFailure, 'a': goal.AdaptToTraffic}
	patKeys   = map[rune]pattern.Type{'h': pattern.HighFrequency, 'u': pattern.Burst, 'y': pattern.Steady, 'x': pattern.Mixed, 'z': pattern.Sparse}
	scaleName = map[scale.Size]string{scale.Tiny: "tiny", scale.Small: "small", scale.Medium: "medium", scale.Large: "large", scale.Huge: "huge"}
)

func displayName(s scale.Size) string {
	return fmt.Sprintf("%s SWARM (%d workloads)", strings.ToUpper(scaleName[s]), s.DefaultAgentCount())
}

func program(args ...string) *exec.Cmd {
	cmd := exec.Command(os.Getenv("VERIF_PROGRAM"), args...)
	cmd.Env = append(os.Environ(), "TERM=xterm-256color", "LC_ALL=C.UTF-8", "COLORTERM=")
	return cmd
}

// endOf waits for the program to end by itself.
func endOf(cmd *exec.Cmd, limit time.Duration) (int, bool) {
	done := make(chan struct{})
	go func() { _ = cmd.Wait(); close(done) }()
	select {
	case <-done:
		return cmd.ProcessState.ExitCode(), true
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		return -1, false
	}
}

var lineRE = regexp.MustCompile(`^\[(\d+)([sm])\] Coherence: (\d+\.\d)% \| Savings: \$(-?\d+\.\d\d) \((-?\d+\.\d)%\) \| Batches: (\d+)$`)

type statusLine struct {
	at                  float64
	unit                string
	coh, savings, share float64
	batches             int
}

// textRun judges the complete output of a run in text mode.
func (c *Case) textRun(what, out, name string, summaries int) []statusLine {
	var lines []statusLine
	welcome, sums, calls, batches := 0, 0, -1, -1
	avg, saved, share, peak := math.NaN(), math.NaN(), math.NaN(), math.NaN()
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "   EMERGE: "):
			welcome++
			c.Check(strings.Contains(l, name), "welcome", "%s: %q does not name %q", what, l, name)
			c.Check(len(lines) == 0 && sums == 0, "welcome", "%s: welcomed late", what)
		case strings.HasPrefix(l, "["):
			f := lineRE.FindStringSubmatch(l)
			if !c.Check(f != nil, "status line", "%s: %q", what, l) {
				continue
			}
			c.Check(welcome == 1 && sums == 0, "order", "%s: %q out of place", what, l)
			n := func(i int) float64 { v, _ := strconv.ParseFloat(f[i], 64); return v }
			b, _ := strconv.Atoi(f[6])
			s := statusLine{n(1), f[2], n(3), n(4), n(5), b}
			c.Check(s.coh >= 0 && s.coh <= 100, "coherence shown", "%s: %q", what, l)
			c.Check(s.share <= 100 && (s.savings == 0 || s.share == 0 || (s.savings > 0) == (s.share > 0)), "savings shown", "%s: %q", what, l)
			if k := len(lines); k > 0 {
				p := lines[k-1]
				c.Check(s.batches >= p.batches, "batches went down", "%s: %q after %d", what, l, p.batches)
			}
			lines = append(lines, s)
		case strings.Contains(l, "SIMULATION COMPLETE"):
			sums++
		case strings.HasPrefix(l, "Error") || strings.HasPrefix(l, "Simulation error"):
			c.Fail("error", "%s: %q", what, l)
		}
		for p, v := range map[string]*int{"Total API Calls (without sync):": &calls, "Total Batches (with sync):": &batches} {
			if strings.HasPrefix(l, p) {
				*v, _ = strconv.Atoi(strings.TrimSpace(l[len(p):]))
			}
		}
		for p, v := range map[string]*float64{"Average Batch Size:": &avg, "Peak Coherence:": &peak} {
			if strings.HasPrefix(l, p) {
				*v, _ = strconv.ParseFloat(strings.TrimSuffix(strings.TrimSpace(l[len(p):]), "%"), 64)
			}
		}
		if strings.HasPrefix(l, "Total Savings:") {
			_, _ = fmt.Sscanf(strings.TrimSpace(l[len("Total Savings:"):]), "$%f (%f%%)", &saved, &share)
		}
	}
	c.Check(welcome == 1, "welcome", "%s: welcomed %d times", what, welcome)
	c.Check(sums == summaries, "summary", "%s: %d summaries", what, sums)
	if sums == 1 && summaries == 1 {
		c.Check(calls >= 0 && batches >= 0 && finite(avg) && finite(saved) && finite(share) && finite(peak), "summary", "%s: incomplete: %s", what, out[strings.Index(out, "SIMULATION COMPLETE"):])
		if batches > 0 {
			c.Check(math.Abs(avg-float64(calls)/float64(batches)) <= 0.051, "average", "%s: %d calls in %d batches, average %v", what, calls, batches, avg)
		} else {
			c.Check(calls == 0 && avg == 0 && saved == 0, "average", "%s: no batch, %d calls, average %v, savings %v", what, calls, avg, saved)
		}
		c.Check(peak >= 0 && peak <= 100.001, "peak", "%s: %v", what, peak)
		for _, s := range lines {
			c.Check(s.coh <= peak+1e-9, "peak", "%s: peak %v below %v shown before", what, peak, s.coh)
			c.Check(s.batches <= batches, "batches", "%s: %d batches in the summary, %d shown before", what, batches, s.batches)
		}
	}
	return lines
}

// crash is what a program that crashed has left on the terminal.
func crash(out string) string {
	i := -1
	for _, mark := range []string{"panic:", "fatal error:", "Error:"} {
		if k := strings.Index(out, mark); k >= 0 && (i < 0 || k < i) {
			i = k
		}
	}
	if i < 0 {
		return "nothing said"
	}
	return out[i:min(i+6000, len(out))]
}

// oddKeys are keys and reports of the terminal that mean nothing to it.
var oddKeys = []string{"0", "6", "k", "?", "~", "w", "n", "\x1e", "\x1c", "\x01", "\t", "\r", "\x7f", "\x1b[A", "\x1b[1;5D", "\x1b[Z", "\x1b[15;5~",
	"\x1b[I", "\x1b[O", "\x1b[<0;10;10M\x1b[<0;10;10m", "\x1b[<66;10;10M", "é", "世", "\x00"}

var aimRE = regexp.MustCompile(`(\d+)% \((Target|Target Spread)\)`)

// aim tells whether the target shown is the one of the goal and the scale.
func aim(p *pty, g goal.Type, sc scale.Size, seen *string) bool {
	tl, _ := p.scr.panel(" TARGET COHERENCE ")
	text := strings.NewReplacer("█", " ", "░", " ").Replace(strings.Join(tl, " "))
	*seen += "\ntarget: " + text
	n, label := -1, ""
	if f := aimRE.FindStringSubmatch(text); f != nil {
		n, _ = strconv.Atoi(f[1])
		label = f[2]
	}
	switch g {
	case goal.MinimizeAPICalls, goal.MinimizeLatency, goal.MaintainRhythm:
		return label == "Target" && math.Abs(float64(n)-sc.DefaultTargetCoherence()*100) <= 1
	case goal.DistributeLoad: // apart rather than together
		return label == "Target Spread" && n > 50
	default: // a figure of the goal's own
		return label == ""
	}
}

// pty is the program on a terminal of its own. A leader process keeps the
// session, and with it the terminal, alive until all output has been read.
type pty struct {
	leader *exec.Cmd
	scr    *screen
	master *os.File
	prog   *os.Process
	codes  chan int
	hold   *os.File
	left   string // what is not as it was before
}

// leaves judges the end of a session.
func (c *Case) leaves(p *pty, what string, code int, ended bool) {
	rec := p.scr.received()
	if !c.Check(ended, "does not end", "%s", what) || !c.Check(code == 0, "exit code", "%s: %d: %s", what, code, crash(rec)) {
		return
	}
	if !strings.Contains(rec, "\x1b[?1049h") { // ended before it has begun
		return
	}
	c.Check(p.left == "", "terminal left behind", "%s:%s", what, p.left)
	c.Check(strings.LastIndex(rec, "\x1b[?1049l") > strings.LastIndex(rec, "\x1b[?1049h"), "terminal left behind", "%s: ends with %q", what, rec[max(0, len(rec)-200):])
	c.Cnt("endings looked at", 1)
}

const endMark = "<<the program has ended>>"

func runLeader() {
	prog := os.Getenv("VERIF_PROGRAM")
	if os.Getenv("VERIF_RACES") != "" {
		prog = os.Getenv("VERIF_PROGRAM_RACE")
		_ = os.Setenv("GORACE", "halt_on_error=0 exitcode=0 log_path="+os.Getenv("VERIF_RACES"))
	}
	cmd := exec.Command(prog, strings.Split(os.Getenv("VERIF_ARGS"), "\x1f")...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	report := os.NewFile(3, "report")
	before := termState()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(report, -1)
		os.Exit(1)
	}
	fmt.Fprintln(report, cmd.Process.Pid)
	_ = cmd.Wait()
	raw := ""
	if after := termState(); after != before {
		raw = fmt.Sprintf(" terminal settings %x became %x", before, after)
	}
	fmt.Print(endMark)
	fmt.Fprintf(report, "%d%s\n", cmd.ProcessState.ExitCode(), raw)
	_, _ = io.ReadAll(os.NewFile(4, "hold"))
	os.Exit(0)
}

// termState is what a program must put back: input, output and local modes.
func termState() (m [3]uint32) {
	var t syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, 0, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); e != 0 {
		panic("harness: no terminal")
	}
	return [3]uint32{t.Iflag, t.Oflag, t.Lflag}
}

func startPTY(args ...string) *pty { return startPTYWith("", args...) }

func startPTYWith(races string, args ...string) *pty {
	master, slave, err := openPTY(100, 280)
	if err != nil {
		panic("harness: " + err.Error())
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-test.run", "^TestProp$")
	cmd.Env = append(os.Environ(), "VERIF_HELPER=leader", "VERIF_RACES="+races, "VERIF_ARGS="+strings.Join(args, "\x1f"), "TERM=xterm-256color", "LC_ALL=C.UTF-8", "COLORTERM=")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	repR, repW, _ := os.Pipe()
	holdR, holdW, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{repW, holdR}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	_ = slave.Close()
	_ = repW.Close()
	_ = holdR.Close()
	p := &pty{leader: cmd, scr: newScreen(100, 280), master: master, codes: make(chan int, 1), hold: holdW}
	go p.scr.pump(master)
	rep := bufio.NewReader(repR)
	l, _ := rep.ReadString('\n')
	pid, _ := strconv.Atoi(strings.TrimSpace(l))
	if pid <= 0 {
		panic("harness: the program does not start")
	}
	p.prog, _ = os.FindProcess(pid)
	go func() {
		l, _ := rep.ReadString('\n')
		first, rest, _ := strings.Cut(strings.TrimSpace(l), " ")
		code, err := strconv.Atoi(first)
		if err != nil {
			code = -2
		}
		p.left = rest
		p.codes <- code
	}()
	return p
}

// end waits for the program to end by itself and reads all it has written.
func (p *pty) end() (code int, ended bool) { return p.endWithin(patience) }

func (p *pty) endWithin(limit time.Duration) (code int, ended bool) {
	select {
	case code = <-p.codes:
		ended = true
		if !eventually(patience, func() bool { return strings.Contains(p.scr.received(), endMark) }) {
			panic("harness: the terminal does not answer")
		}
	case <-time.After(limit):
		_ = p.prog.Kill()
		<-p.codes
	}
	p.close()
	return code, ended
}

func (p *pty) close() {
	_ = p.hold.Close()
	_ = p.leader.Wait()
	_ = p.master.Close()
}

const patience = 40 * time.Second

func TestProp(t *testing.T) {
	if os.Getenv("VERIF_HELPER") == "leader" {
		runLeader()
	}
	m := Start(t, "C38", "runs of the program: in virtual time without a terminal for every scale, goal, pattern, interval, timeout and moment of cancellation; real processes ended by timeout, SIGINT or SIGTERM at arbitrary moments; sessions on a pseudo terminal with key sequences, compared with a model of the session after every key; every scale name and near misses; non-trivial when the program showed something; distinct by configuration and history")
	defer m.Finish()

	m.Each("names", m.N(120), func(c *Case) {
		want := allScales[c.Intn(5)]
		s := scaleName[want]
		ok := true
		switch c.Intn(3) {
		case 0:
			b := []byte(s)
			k := c.Intn(len(b))
			switch c.Intn(4) {
			case 0:
				b[k] ^= 0x20
			case 1:
				b = append(b[:k], b[k+1:]...)
			case 2:
				b = append(b, ' ')
			case 3:
				b[k] = byte(c.Range(1, 127))
			}
			s = string(b)
			ok = false
			for v, name := range scaleName {
				if name == s {
					ok, want = true, v
				}
			}
		case 1:
			s, ok = []string{"", "gigantic", "0", "20", "tiny,small", "Tiny", "TINY", "tiny\n"}[c.Intn(8)], false
		}
		var out bytes.Buffer
		cmd := program("-scale", s, "-timeout", "1ms")
		cmd.Stdout, cmd.Stderr = &out, &out
		_ = cmd.Start()
		code, ended := endOf(cmd, patience)
		if ok {
			c.Check(ended && code == 0, "scale name", "%q: exit %d: %s", s, code, out.String())
			c.textRun(s, out.String(), displayName(want), 1)
		} else {
			c.Check(ended && code == 1, "unknown scale", "%q: exit %d", s, code)
			c.Check(strings.Contains(out.String(), "Unknown scale: "+s+"\n"), "unknown scale", "%q: %s", s, out.String())
			for _, name := range scaleName {
				c.Check(strings.Contains(out.String(), name), "unknown scale", "%q is not offered: %s", name, out.String())
			}
			c.Check(!strings.Contains(out.String(), "EMERGE:"), "unknown scale", "ran: %s", out.String())
		}
		c.Key(s)
	})

	// an update interval that is not positive is refused like an unknown scale
	m.Each("interval", m.N(24), func(c *Case) {
		d := time.Duration(c.PickD(0, 0, -1, -time.Millisecond, -time.Hour, time.Microsecond, time.Millisecond, 20*time.Millisecond))
		var out bytes.Buffer
		cmd := program("-scale", "tiny", "-timeout", "300ms", "-interval", d.String())
		cmd.Stdout, cmd.Stderr = &out, &out
		_ = cmd.Start()
		code, ended := endOf(cmd, patience)
		c.Check(!strings.Contains(out.String(), "panic"), "update interval", "%v: %s", d, out.String())
		if d > 0 {
			c.Check(ended && code == 0 && strings.Contains(out.String(), "SIMULATION COMPLETE"), "update interval", "%v: exit %d: %s", d, code, out.String())
		} else {
			c.Check(ended && code == 1, "update interval", "%v: exit %d: %s", d, code, out.String())
			c.Check(!strings.Contains(out.String(), "EMERGE:"), "update interval", "%v: ran: %s", d, out.String())
		}
		c.Key("interval", d)
	})

	m.Each("text", m.N(200), func(c *Case) {
		f, err := os.CreateTemp("", "verif38")
		if err != nil {
			panic(err)
		}
		defer func() { _ = f.Close(); _ = os.Remove(f.Name()) }()
		sc := []scale.Size{scale.Tiny, scale.Tiny, scale.Tiny, scale.Tiny, scale.Small, scale.Small, scale.Medium}[c.Intn(7)]
		g, p := allGoals[c.Intn(8)], pattern.Unset
		if c.Intn(2) == 0 {
			p = allPats[c.Intn(5)]
		}
		target := c.PickF(sc.DefaultTargetCoherence(), sc.DefaultTargetCoherence(), 0.2, 0.4, 0.6)
		cfg := ui.RunnerConfig{CurrentGoal: g, CurrentScale: sc, CurrentPattern: p}
		cfg.UpdateInterval = time.Duration(c.PickI(50, 100, 100, 330, 700, 1000, 1500, 4000)) * time.Millisecond
		cfg.Timeout = time.Duration(c.Range(200, 40000))*time.Millisecond + 17*time.Microsecond
		if c.Intn(4) == 0 {
			cfg.Timeout = time.Duration(c.Range(60000, 150000))*time.Millisecond + 17*time.Microsecond
		}
		life := cfg.Timeout
		var stop time.Duration // the user stops it
		switch c.Intn(4) {
		case 0:
			stop = time.Duration(c.Int63n(int64(cfg.Timeout))) | 1
			life = stop
		case 1:
			stop, cfg.Timeout = cfg.Timeout, 0
			life = stop
		}
		what := fmt.Sprintf("%v, %v, %v, target %v, every %v for %v, stopped after %v", sc, g, p, target, cfg.UpdateInterval, cfg.Timeout, stop)
		var res *ui.RunResult
		var took time.Duration
		var after int64
		real := os.Stdout
		os.Stdout = f
		func() {
			defer func() { os.Stdout = real }()
			synctest.Test(t, func(*testing.T) {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				start := time.Now()
				if stop > 0 {
					go func() { time.Sleep(stop); cancel() }()
				}
				sim, err := simulation.New(simulation.BuildConfig{Goal: g, Scale: sc, Pattern: p, TargetCoherence: target})
				if err != nil {
					c.Fail("construction", "%s: %v", what, err)
					return
				}
				d := display.NewTextDisplay()
				d.(*display.TextDisplay).SetSimulationName(displayName(sc))
				res = ui.NewRunner(cfg, sim, d, display.NewKeyboardController()).Run(ctx)
				took = time.Since(start)
				if st, err := f.Stat(); err == nil {
					after = st.Size()
				}
				time.Sleep(time.Minute)
			})
		}()
		_, _ = f.Seek(0, 0)
		b, _ := io.ReadAll(f)
		out := string(b)
		c.Check(res != nil && res.Error == nil && res.ScaleEvent == 0, "result", "%s: %+v", what, res)
		c.Check(took == life, "time", "%s: ended after %v", what, took)
		c.Check(after == int64(len(b)), "late output", "%s: %q", what, out[after:])
		lines := c.textRun(what, out, displayName(sc), 1)
		// the status is shown at once and then every second, as the interval allows
		iv := cfg.UpdateInterval
		gap := (time.Second + iv - 1) / iv * iv
		var at []time.Duration
		for x := iv; x < life; x += gap {
			at = append(at, x)
		}
		if c.Check(len(lines) == len(at), "status", "%s: %d status lines in %v, should be %d", what, len(lines), life, len(at)) {
			for i, l := range lines {
				unit := time.Second
				if at[i] >= time.Minute {
					unit = time.Minute
				}
				c.Check(l.unit == map[time.Duration]string{time.Second: "s", time.Minute: "m"}[unit] && math.Abs(l.at-float64(at[i])/float64(unit)) <= 1,
					"time shown", "%s: %v%s at %v", what, l.at, l.unit, at[i])
			}
		}
		if len(lines) > 0 {
			c.Key(what)
		}
		c.Cnt("status lines", len(lines))
		if last := len(lines) - 1; last >= 0 && life > time.Minute {
			c.Sample("%s: coherence %.1f, %d %s", what, lines[last].coh, lines[last].batches, "batches")
		}
	})

	m.Each("process", m.N(48), func(c *Case) {
		kind := c.I % 8
		var out bytes.Buffer
		switch kind {
		case 0: // what it offers
			cmd := program("-list")
			cmd.Stdout, cmd.Stderr = &out, &out
			_ = cmd.Start()
			code, ended := endOf(cmd, patience)
			c.Check(ended && code == 0, "list", "exit %d: %s", code, out.String())
			n := 0
			for _, l := range strings.Split(out.String(), "\n") {
				for s, name := range scaleName {
					f := strings.Fields(l)
					if len(f) > 3 && f[0] == name {
						n++
						c.Check(f[1] == "-" && f[2] == strconv.Itoa(s.DefaultAgentCount()) && strings.HasPrefix(f[3], "agents"), "list", "%q, %d agents", l, s.DefaultAgentCount())
					}
				}
			}
			c.Check(n == 5, "list", "%s", out.String())
			c.Check(!strings.Contains(out.String(), "EMERGE:"), "list", "ran: %s", out.String())
			c.Key("list")
		case 1, 2, 3: // ends at its timeout
			sc := []scale.Size{scale.Tiny, scale.Small, scale.Medium}[c.Intn(3)]
			to := time.Duration(c.Range(100, 2500)) * time.Millisecond
			cmd := program("-scale", scaleName[sc], "-timeout", to.String(), "-interval", fmt.Sprint(c.PickI(20, 100, 300))+"ms")
			cmd.Stdout, cmd.Stderr = &out, &out
			t0 := time.Now()
			_ = cmd.Start()
			code, ended := endOf(cmd, to+patience)
			took := time.Since(t0)
			what := fmt.Sprintf("%v for %v", sc, to)
			c.Check(ended && code == 0, "end at the timeout", "%s: exit %d after %v", what, code, took)
			c.Check(took >= to, "early end", "%s: ended after %v", what, took)
			lines := c.textRun(what, out.String(), displayName(sc), 1)
			c.Check(len(lines) <= int(took/time.Second)+1, "too many lines", "%s: %d in %v", what, len(lines), took)
			c.Key(what)
		default: // stopped by a signal
			args := []string{"-interval", "20ms"}
			if kind == 5 {
				args = append(args, "-timeout", "0")
			}
			cmd := program(args...)
			pipe, _ := cmd.StdoutPipe()
			_ = cmd.Start()
			r := bufio.NewReader(pipe)
			for !strings.Contains(out.String(), "] Coherence") { // it is running
				l, err := r.ReadString('\n')
				out.WriteString(l)
				if err != nil {
					break
				}
			}
			rest := make(chan string, 1)
			go func() { b, _ := io.ReadAll(r); rest <- string(b) }()
			wait := time.Duration(c.Range(0, 1500)) * time.Millisecond
			time.Sleep(wait)
			sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[c.Intn(2)]
			what := fmt.Sprintf("%v after %v", sig, wait)
			_ = cmd.Process.Signal(sig)
			kill := time.AfterFunc(patience, func() { _ = cmd.Process.Kill() })
			out.WriteString(<-rest)
			_ = cmd.Wait()
			kill.Stop()
			c.Check(cmd.ProcessState.ExitCode() == 0, "signal", "%s: %v", what, cmd.ProcessState)
			c.textRun(what, out.String(), displayName(scale.Tiny), 1)
			c.Key(what)
		}
	})

	m.Each("keys", m.N(56), func(c *Case) {
		sc := []scale.Size{scale.Tiny, scale.Tiny, scale.Small, scale.Medium}[c.Intn(4)]
		g, chosen := goal.MinimizeAPICalls, pattern.Unset
		p := startPTY("-scale", scaleName[sc], "-interval", "30ms", "-timeout", "10m")
		hist := ""
		over := false
		defer func() {
			if !over {
				_ = p.prog.Kill()
				p.close()
			}
		}()
		pat := func() pattern.Type {
			if chosen != pattern.Unset {
				return chosen
			}
			return pattern.BestPatternForGoal(int(g))
		}
		switches := 0
		lastLine := ""
		// shows waits until the display agrees with the model
		shows := func() bool {
			var seen string
			ok := eventually(patience, func() bool {
				if strings.Count(p.scr.received(), "Switching to ") < switches {
					seen = "no switch"
					return false
				}
				pl, _ := p.scr.panel(" CONFIGURATION ")
				seen = strings.Join(pl, "\n")
				wl, _ := p.scr.panel(" WORKLOADS ")
				seen += "\n" + strings.Join(wl, "\n")
				return strings.Contains(seen, "Elapsed:") && strings.Contains(seen, "Goal: "+g.String()+"\n") && strings.Contains(seen, "Pattern: "+pat().String()+"\n") &&
					strings.Contains(seen, "Scale: "+displayName(sc)) && strings.Contains(seen, fmt.Sprintf("and %d more", sc.DefaultAgentCount()-10)) &&
					aim(p, g, sc, &seen)
			})
			return c.Check(ok, "session", "%q: not running as %v, %v, %v: %s", hist, sc, g, pat(), seen)
		}
		status := func(name, want string) bool {
			return eventually(patience, func() bool {
				pl, _ := p.scr.panel(" METRICS ")
				return strings.Contains(strings.Join(pl, "\n"), name+": "+want)
			})
		}
		press := func(r rune) {
			if r >= 'a' && r <= 'z' && c.Intn(3) == 0 {
				r -= 'a' - 'A'
			}
			hist += string(r)
			_, _ = p.master.Write([]byte(string(r)))
		}
		if !shows() {
			return
		}
		paused := false
		var typed []rune
		for r := range scaleKeys {
			if r < '5' {
				typed = append(typed, r)
			}
		}
		for r := range goalKeys {
			typed = append(typed, r)
		}
		for r := range patKeys {
			typed = append(typed, r)
		}
		// (map order must not decide)
		for i := range typed {
			for j := i + 1; j < len(typed); j++ {
				if typed[j] < typed[i] {
					typed[i], typed[j] = typed[j], typed[i]
				}
			}
		}
		for range c.Range(2, 7) {
			switch c.Intn(10) {
			case 0, 1:
				press('p')
				paused = !paused
				if !c.Check(status("Paused", map[bool]string{true: "YES", false: "NO"}[paused]), "pause", "%q: paused is not %v", hist, paused) {
					return
				}
			case 2:
				press(' ')
				paused = false
				if !c.Check(status("Paused", "NO"), "resume", "%q: still paused", hist) {
					return
				}
			case 3:
				if paused {
					press('r')
					break
				}
				ok := false
				for range 6 {
					press('r')
					if eventually(1800*time.Millisecond, func() bool {
						pl, _ := p.scr.panel(" METRICS ")
						return strings.Contains(strings.Join(pl, "\n"), "Resetting: YES")
					}) {
						ok = true
						break
					}
				}
				if !c.Check(ok, "reset", "%q: no reset shown", hist) {
					return
				}
			case 4:
				press('d')
			case 5:
				k := oddKeys[c.Intn(len(oddKeys))]
				hist += k
				_, _ = p.master.Write([]byte(k))
				time.Sleep(80 * time.Millisecond) // not one sequence with the next key
			default:
				r := typed[c.Intn(len(typed))]
				line := ""
				if v, ok := scaleKeys[r]; ok && v != sc {
					sc = v
					line = "Switching to " + v.String() + " scale..."
				}
				if v, ok := goalKeys[r]; ok && v != g {
					g = v
					line = "Switching to " + v.String() + " optimization..."
				}
				if v, ok := patKeys[r]; ok && v != pat() {
					chosen = v
					line = "Switching to " + v.String() + " pattern..."
				}
				press(r)
				if line == "" {
					c.Cnt("keys without a change", 1)
					break
				}
				switches++
				lastLine = line
				paused = false
				if !shows() {
					return
				}
				rec := p.scr.received()
				i := strings.LastIndex(rec, "Switching to ")
				c.Check(i >= 0 && strings.HasPrefix(rec[i:], lastLine), "announcement", "%q: %q", hist, rec[i:min(i+60, len(rec))])
				c.Check(status("Paused", "NO") && strings.Count(rec, "Switching to ") == switches, "switches", "%q: %d switches instead of %d", hist, strings.Count(rec, "Switching to "), switches)
				c.Cnt("switches", 1)
			}
		}
		if !shows() { // what was pressed last has changed nothing else
			return
		}
		switch k := c.Intn(5); k {
		case 0:
			press('q')
		case 1:
			hist += "ESC"
			_, _ = p.master.Write([]byte("\x1b"))
		default:
			sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[k%2]
			hist += " " + sig.String()
			time.Sleep(300 * time.Millisecond)
			_ = p.prog.Signal(sig)
		}
		code, ended := p.end()
		over = true
		c.leaves(p, fmt.Sprintf("%q", hist), code, ended)
		rec := p.scr.received()
		c.Check(strings.Count(rec, "Switching to ") == switches, "switches", "%q: %d switches instead of %d", hist, strings.Count(rec, "Switching to "), switches)
		c.Check(strings.Contains(rec, "\x1b[?1049h"), "no full screen", "%q", hist)
		c.Key(hist)
		c.Sample("%q: %d switches", hist, switches)
	})

	m.Each("switch then timeout", m.N(10), func(c *Case) {
		to := time.Duration(c.Range(5000, 8000)) * time.Millisecond
		p := startPTY("-scale", "tiny", "-interval", "30ms", "-timeout", to.String())
		over := false
		defer func() {
			if !over {
				_ = p.prog.Kill()
				p.close()
			}
		}()
		running := func(n int) bool {
			return eventually(to, func() bool {
				pl, _ := p.scr.panel(" CONFIGURATION ")
				return strings.Contains(strings.Join(pl, "\n"), "Elapsed:") && strings.Count(p.scr.received(), "Switching to ") == n
			})
		}
		hist, n := "", 0
		var last time.Time
		keys := []rune{'2', 'l', 'u', '3', 'm', 'y', '1', 'c', 'z'}
		if running(0) {
			for i := range c.Range(1, 3) {
				r := keys[(c.Intn(3)*3+i*4)%9]
				if strings.ContainsRune(hist, r) || (r == '1' && !strings.ContainsAny(hist, "23")) {
					continue
				}
				last = time.Now()
				hist += string(r)
				_, _ = p.master.Write([]byte(string(r)))
				n++
				if !running(n) {
					n--
					break
				}
			}
		}
		code, ended := p.endWithin(to + patience)
		over = true
		took := time.Since(last)
		what := fmt.Sprintf("%v, %q, %d switches", to, hist, n)
		c.leaves(p, what, code, ended)
		if n > 0 && strings.Count(p.scr.received(), "Switching to ") == len(hist) {
			c.Check(took >= to, "early end", "%s: the last session has lasted %v at most", what, took)
			c.Cnt("switches", n)
			c.Key(hist, to)
		}
	})

	m.Each("restore", m.N(32), func(c *Case) {
		p := startPTY("-scale", "tiny", "-interval", fmt.Sprint(c.PickI(5, 30, 100))+"ms", "-timeout", "10m")
		running := eventually(patience, func() bool { return strings.Contains(p.scr.text(), "Elapsed:") })
		if !c.Check(running, "session", "not running") {
			_ = p.prog.Kill()
			p.close()
			return
		}
		how := ""
		for range c.Intn(3) { // keys make it draw at once
			_, _ = p.master.Write([]byte("k"))
			time.Sleep(time.Duration(c.Range(0, 40)) * time.Millisecond)
		}
		switch c.I % 4 {
		case 0, 1:
			how = "q"
			_, _ = p.master.Write([]byte("q"))
		case 2:
			how = "SIGINT"
			_ = p.prog.Signal(syscall.SIGINT)
		default:
			how = "SIGTERM"
			_ = p.prog.Signal(syscall.SIGTERM)
		}
		code, ended := p.end()
		c.leaves(p, how, code, ended)
		c.Key(how, c.I)
	})

	// every part of the program under the race detector
	m.Each("races", m.N(24), func(c *Case) {
		log := fmt.Sprintf("%s/program-races-%d", os.TempDir(), c.I)
		p := startPTYWith(log, "-scale", []string{"tiny", "small"}[c.I%2], "-interval", fmt.Sprint(c.PickI(5, 30, 100))+"ms", "-timeout", "10m")
		hist := ""
		shown := func() bool {
			return eventually(patience, func() bool { return strings.Contains(p.scr.text(), "Elapsed:") })
		}
		if !c.Check(shown(), "session", "not running") {
			_ = p.prog.Kill()
			p.close()
			return
		}
		all := []string{"p", " ", "r", "d", "d", "r", "p", "p", "1", "2", "l", "c", "t", "e", "m", "f", "a", "b", "h", "u", "y", "x", "z"}
		for range c.Range(2, 8) {
			k := all[c.Intn(len(all))]
			if c.Intn(6) == 0 {
				k = oddKeys[c.Intn(len(oddKeys))]
			}
			hist += k
			_, _ = p.master.Write([]byte(k))
			time.Sleep(time.Duration(c.Range(0, 250)) * time.Millisecond)
		}
		if c.Intn(4) == 0 {
			_ = p.prog.Signal(syscall.SIGTERM)
		} else {
			hist += "q"
			// (a session just beginning does not take it)
			for range 40 {
				_, _ = p.master.Write([]byte("q"))
				select {
				case code := <-p.codes:
					p.codes <- code
				case <-time.After(time.Second):
					continue
				}
				break
			}
		}
		code, ended := p.end()
		c.leaves(p, fmt.Sprintf("%q", hist), code, ended)
		files, _ := filepath.Glob(log + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			c.Check(!bytes.Contains(b, []byte("DATA RACE")), "data race", "%q: %s", hist, b[:min(len(b), 6000)])
		}
		c.Key(hist)
	})
}
