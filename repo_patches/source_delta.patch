From 70fcad74c49bfad7e6fa8ba4981b0cdf944351b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 01/54] fix: completed phase and frequency move toward the
 goal, not a template default

---
 emerge/completion/engine.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emerge/completion/engine.go b/emerge/completion/engine.go
index a416097..66b7170 100644
--- a/emerge/completion/engine.go
+++ b/emerge/completion/engine.go
@@ -43,12 +43,13 @@ func (e *Engine) CompletePattern(current *core.TargetPattern, gaps []core.Patter
 	for _, gap := range gaps {
 		switch gap.Type {
 		case "phase":
-			// Gradually adjust phase toward template
-			completed.Filled["phase"] = e.blendPhase(current.Phase, template.Phase, gap.Severity)
+			// Gradually adjust phase toward the goal, weighted by how far off it is
+			completed.Filled["phase"] = e.blendPhase(current.Phase, gap.Target, gap.Severity)
 
 		case "frequency":
-			// Blend frequency toward template
-			completed.Filled["frequency"] = e.blendFrequency(current.Frequency, template.Frequency, gap.Severity)
+			// Blend frequency toward the goal without overshooting it
+			completed.Filled["frequency"] = e.blendFrequency(
+				current.Frequency, time.Duration(gap.Target), math.Min(gap.Severity, 1))
 
 		case "coherence":
 			// Use template's coherence strategy
-- 
2.43.0


From eb2c848217e61a7f989262f3b7167e69e7061188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 02/54] fix: pull agents to the target phase along the shortest
 arc

---
 emerge/swarm/goal_directed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..aad9137 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -295,7 +295,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 	for _, a := range agents {
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
-		phaseDiff := core.WrapPhase(targetPhase - currentPhase)
+		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
-- 
2.43.0


From af5d1af4c805b1d73dc3d32d392d8b3284bf2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 03/54] fix: do not compound the reduced adjustment scale
 across agents

---
 emerge/swarm/goal_directed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index aad9137..f7177c0 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -296,6 +296,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
 		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
+		agentScale := adjustmentScale
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
@@ -340,7 +341,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 					continue
 				}
 				// For the remaining 1/3, use very small adjustments
-				adjustmentScale *= 0.2
+				agentScale *= 0.2
 			}
 
 			if math.Abs(phaseDiff) > threshold {
@@ -349,7 +350,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 				// More randomness for small swarms
 				randomRange := 0.3 + (1.0-sizeNormalized)*0.2                      // 0.3-0.5 range based on size
 				randomFactor := 1.0 - randomRange/2 + random.Float64()*randomRange // Center around 1.0
-				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*adjustmentScale) * randomFactor
+				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*agentScale) * randomFactor
 
 				// Apply adjustment with variation
 				newPhase := core.WrapPhase(currentPhase + effectiveAdjustment*(1+variation))
-- 
2.43.0


From 122c01b40dc28882dc22f50a9e21a23a7ace6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 04/54] fix: exceeding the coherence goal counts as reaching it

---
 emerge/swarm/goal_directed.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index f7177c0..956f9cc 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -15,6 +15,10 @@ import (
 	"github.com/carlisia/bio-adapt/internal/random"
 )
 
+// distributionCoherence is the target below which agents are kept apart
+// (load distribution) rather than brought together.
+const distributionCoherence = 0.4
+
 // GoalDirectedSync achieves synchronization through adaptive strategies.
 type GoalDirectedSync struct {
 	swarm              *Swarm
@@ -180,7 +184,12 @@ func (gds *GoalDirectedSync) measureSystemPattern() *core.TargetPattern {
 
 // isPatternAchieved checks if we've reached the target.
 func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool {
-	distance := core.PatternDistance(current, gds.targetPattern)
+	measured := *current
+	if gds.targetPattern.Coherence >= distributionCoherence {
+		// Exceeding a synchronization target is not a deviation from it
+		measured.Coherence = math.Min(measured.Coherence, gds.targetPattern.Coherence)
+	}
+	distance := core.PatternDistance(&measured, gds.targetPattern)
 
 	// Adaptive tolerance based on swarm size and theoretical limits
 	swarmSize := len(gds.swarm.Agents())
@@ -244,7 +253,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 	distanceToTarget := targetCoherence - coherence
 
 	// Special case: Low coherence target (for load distribution)
-	if targetCoherence < 0.4 && coherence > targetCoherence {
+	if targetCoherence < distributionCoherence && coherence > targetCoherence {
 		// We want to maintain distributed phases, not synchronize
 		// Apply randomization to prevent synchronization
 		for _, a := range agents {
-- 
2.43.0


From ed273c3d6a9d7d541ead9a40e41df0c2746d8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 05/54] fix: hold out for the full coherence goal before
 settling within tolerance

---
 emerge/swarm/goal_directed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 956f9cc..d880e23 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -104,6 +104,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 	defer ticker.Stop()
 
 	iterationCount := 0
+	settleAfter := maxIterations / 10
 
 	for iterationCount < maxIterations {
 		select {
@@ -120,7 +121,9 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
 
 			// Step 3: Check if we've achieved the goal
-			if gds.isPatternAchieved(currentPattern) {
+			// Hold out for the full target at first, then settle within tolerance
+			settling := coherence >= target.Coherence || iterationCount > settleAfter
+			if settling && gds.isPatternAchieved(currentPattern) {
 				return nil // Success!
 			}
 
-- 
2.43.0


From 336a09c596c4ff1ac808d234ab1cec36fe7a98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 06/54] fix: concurrent agent state updates must not lose each
 other

---
 emerge/agent/atomic_state.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..8cff62b 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -46,13 +46,20 @@ func (a *AtomicState) Store(state StateData) {
 	a.value.Store(&state)
 }
 
-// Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// Update atomically updates the state. The function is applied again to the
+// newer value when another update got in between, so no update is lost.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -82,9 +89,18 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 	a.value.Store(&behavior)
 }
 
-// Update atomically updates the behavior.
+// Update atomically updates the behavior. The function is applied again to the
+// newer value when another update got in between, so no update is lost.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From bc77a3a0e75cf84ea06fd01212dcc9e00d80c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 07/54] fix: actions must not spend energy another action
 already spent

---
 emerge/agent/agent.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..be3b73b 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -446,25 +446,35 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 			core.ErrInsufficientEnergy, energyCost, state.Energy)
 	}
 
-	// Apply action and update energy in a single atomic operation
+	// Apply action and update energy in a single atomic operation, rechecking
+	// the energy in case another action spent it in the meantime
 	success := false
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
-			s.Phase = core.WrapPhase(s.Phase + action.Value)
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			state = *s
+			if success = energyCost <= s.Energy; success {
+				s.Phase = core.WrapPhase(s.Phase + action.Value)
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
-			s.Energy = math.Max(0, s.Energy-energyCost)
+			state = *s
+			if success = energyCost <= s.Energy; success {
+				s.Energy = math.Max(0, s.Energy-energyCost)
+			}
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
-	if success && a.resources != nil {
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
+			core.ErrInsufficientEnergy, energyCost, state.Energy)
+	}
+
+	if a.resources != nil {
 		a.resources.Request(energyCost)
 	}
 
-- 
2.43.0


From 0e97983b9875b96d64bb3145a89287cbc337ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 08/54] fix: convergence statistics must not re-lock a held
 lock (deadlock with a writer)

---
 emerge/monitoring/convergence.go | 32 ++++++++++++++++++++++++++------
 internal/emerge/convergence.go   | 32 ++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..66d62ba 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -88,6 +88,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.currentCoherence()
+}
+
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -100,6 +105,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.convergenceRate()
+}
+
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -136,6 +146,11 @@ func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.stability()
+}
+
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -175,16 +190,21 @@ func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.predictConvergenceTime()
+}
+
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +239,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +268,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..0f3544e 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -88,6 +88,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.currentCoherence()
+}
+
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -100,6 +105,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.convergenceRate()
+}
+
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -136,6 +146,11 @@ func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.stability()
+}
+
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -175,16 +190,21 @@ func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
 
+	return m.predictConvergenceTime()
+}
+
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +239,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +268,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From 3897ec00122ca103c02774e2254dec722765c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 09/54] fix: predicted convergence time must not overflow to a
 negative duration

---
 emerge/monitoring/convergence.go | 7 ++++++-
 internal/emerge/convergence.go   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 66d62ba..59dd071 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -218,7 +218,12 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Converging too slowly to express
+	}
+
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 0f3544e..3d8f7de 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -218,7 +218,12 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Converging too slowly to express
+	}
+
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From 45cac369011d0fc8d18a67834a8624de81b6a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 10/54] fix: gap detection must not panic on patterns with
 fewer frequencies than phases

---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..09ca564 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..b122554 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From 5f5daaf3f2987d1b55aa7c21d935394fd898cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 11/54] fix: setting the convergence target must not race with
 recording samples

---
 emerge/convergence/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index 7a6d49b..a9cef73 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -42,6 +42,8 @@ func NewMonitor(windowSize int) *Monitor {
 
 // SetTarget sets the target coordination state to converge toward.
 func (m *Monitor) SetTarget(target *core.TargetPattern) {
+	m.historyMu.Lock()
+	defer m.historyMu.Unlock()
 	m.target = target
 }
 
-- 
2.43.0


From aeacf9ea67e74b6197486b0d847a40a994a783cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 12/54] =?UTF-8?q?fix:=20phase=20difference=20between=200?=
 =?UTF-8?q?=20and=203=CF=80/2=20had=20the=20wrong=20sign?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From fa8233c1c51af8c95580b7be1d54985a657032fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 13/54] fix: attraction force must not depend on the phase
 representation or divide by a zero radius

---
 internal/emerge/basin.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index e287cc3..a32c925 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -55,16 +55,13 @@ func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 		return 0
 	}
 
+	if b.radius == 0 {
+		return b.strength // At the center of a point basin
+	}
+
 	// Stronger force when closer to center
 	normalizedDist := distance / b.radius
 
-	// Special handling for negative phase to positive target transitions
-	// This may be needed to match expected test behavior
-	if state.Phase < 0 && b.target.Phase > 0 {
-		// Boost the force for cross-zero transitions to encourage convergence
-		return b.strength * (1 - normalizedDist) * 2.0
-	}
-
 	return b.strength * (1 - normalizedDist)
 }
 
-- 
2.43.0


From d996aa6d253d0112ed65ffe8a2ba75dd9aa5cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 14/54] fix: normalizing a huge phase must terminate

---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From 08f43d4030f64c50b147ece77bba0a17a6b044ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 15/54] fix: phase convergence must accept any representation
 of the target phase

---
 emerge/swarm/phase_convergence.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..b726ac5 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -15,14 +17,8 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	// Calculate mean phase distance from target
 	totalDistance := 0.0
 	for _, agent := range agents {
-		phase := agent.Phase()
 		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
-		totalDistance += diff
+		totalDistance += math.Abs(core.PhaseDifference(agent.Phase(), targetPhase))
 	}
 
 	avgDistance := totalDistance / float64(len(agents))
-- 
2.43.0


From 9dcb58109f4705edb539bbe6fcceb805c20c8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 16/54] fix: goals beyond the practical limit must get an
 iteration budget

---
 emerge/swarm/goal_directed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index d880e23..943539b 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -96,8 +96,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit (the factor is infinite beyond the practical limit)
+	maxIterations := int(math.Min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From 3d76ebad416c51d4afe76ba7d74fc0c99e806c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:02 +0000
Subject: [PATCH 17/54] fix: concurrent runs must not race on the shared target
 pattern

---
 emerge/swarm/goal_directed.go | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 943539b..59a555d 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -82,8 +82,9 @@ func NewGoalDirectedSyncWithConfig(s *Swarm, cfg *Config) *GoalDirectedSync {
 
 // AchieveSynchronization runs goal-directed synchronization loop.
 func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target *core.TargetPattern) error {
-	gds.targetPattern = target
-	gds.convergenceMonitor.SetTarget(target)
+	// Work on a copy: concurrent runs must not share or modify the caller's target
+	goal := *target
+	target = &goal
 
 	// Check if target is achievable
 	swarmSize := len(gds.swarm.Agents())
@@ -91,9 +92,13 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 	if target.Coherence > limits.Theoretical {
 		// Impossible target - adjust to theoretical maximum
 		target.Coherence = limits.Theoretical
-		gds.targetPattern = target
 	}
 
+	gds.mu.Lock()
+	gds.targetPattern = target
+	gds.mu.Unlock()
+	gds.convergenceMonitor.SetTarget(target)
+
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
 	// Cap at reasonable limit (the factor is infinite beyond the practical limit)
@@ -123,7 +128,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 			// Step 3: Check if we've achieved the goal
 			// Hold out for the full target at first, then settle within tolerance
 			settling := coherence >= target.Coherence || iterationCount > settleAfter
-			if settling && gds.isPatternAchieved(currentPattern) {
+			if settling && gds.isPatternAchieved(currentPattern, target) {
 				return nil // Success!
 			}
 
@@ -139,7 +144,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 			completedPattern := gds.completionEngine.CompletePattern(currentPattern, gaps)
 
 			// Step 7: Apply adjustments through current strategy
-			gds.applyPatternCompletion(completedPattern)
+			gds.applyPatternCompletion(completedPattern, target)
 
 			// Step 8: Add noise if stuck to escape local minima
 			if gds.convergenceMonitor.IsStuck() {
@@ -186,13 +191,13 @@ func (gds *GoalDirectedSync) measureSystemPattern() *core.TargetPattern {
 }
 
 // isPatternAchieved checks if we've reached the target.
-func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool {
+func (gds *GoalDirectedSync) isPatternAchieved(current, target *core.TargetPattern) bool {
 	measured := *current
-	if gds.targetPattern.Coherence >= distributionCoherence {
+	if target.Coherence >= distributionCoherence {
 		// Exceeding a synchronization target is not a deviation from it
-		measured.Coherence = math.Min(measured.Coherence, gds.targetPattern.Coherence)
+		measured.Coherence = math.Min(measured.Coherence, target.Coherence)
 	}
-	distance := core.PatternDistance(&measured, gds.targetPattern)
+	distance := core.PatternDistance(&measured, target)
 
 	// Adaptive tolerance based on swarm size and theoretical limits
 	swarmSize := len(gds.swarm.Agents())
@@ -210,17 +215,17 @@ func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool
 	}
 
 	// If we're very close to practical limit, be more lenient
-	if gds.targetPattern.Coherence >= limits.Practical*0.95 {
+	if target.Coherence >= limits.Practical*0.95 {
 		tolerance *= 2
 	}
 
-	coherenceAchieved := current.Coherence >= gds.targetPattern.Coherence-tolerance
+	coherenceAchieved := current.Coherence >= target.Coherence-tolerance
 	distanceAchieved := distance < gds.config.Convergence.PatternDistanceThreshold
 
 	// Also check phase convergence for high coherence targets
 	// This ensures agents are actually at the same phase, not just synchronized
-	if gds.targetPattern.Coherence >= gds.config.Thresholds.HighCoherence {
-		phaseConvergence := gds.swarm.MeasurePhaseConvergence(gds.targetPattern.Phase)
+	if target.Coherence >= gds.config.Thresholds.HighCoherence {
+		phaseConvergence := gds.swarm.MeasurePhaseConvergence(target.Phase)
 		phaseAchieved := phaseConvergence >= gds.config.Convergence.PhaseConvergenceGoal
 		return coherenceAchieved && distanceAchieved && phaseAchieved
 	}
@@ -231,7 +236,7 @@ func (gds *GoalDirectedSync) isPatternAchieved(current *core.TargetPattern) bool
 // applyPatternCompletion applies the completed coordination state to agents.
 //
 //nolint:gocyclo // Complex pattern completion logic requires multiple decision branches
-func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion.CompletedPattern) {
+func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion.CompletedPattern, target *core.TargetPattern) {
 	agents := gds.swarm.Agents()
 
 	// Get adjustments from completion
@@ -249,7 +254,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 
 	// Scale adjustment based on distance to target
 	// This prevents overshooting while ensuring adequate improvement
-	targetCoherence := gds.targetPattern.Coherence
+	targetCoherence := target.Coherence
 	var adjustmentScale float64
 
 	// Calculate how far we are from target
@@ -306,7 +311,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 	agentIndex := 0
 	for _, a := range agents {
 		currentPhase := a.Phase()
-		targetPhase := gds.targetPattern.Phase
+		targetPhase := target.Phase
 		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
 		agentScale := adjustmentScale
 
-- 
2.43.0


From 096f5bddeed8f16b86a0c4553acab190476e26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:03 +0000
Subject: [PATCH 18/54] fix: record coherence so that convergence reporting
 reflects the run

---
 emerge/swarm/goal_directed.go        | 1 +
 emerge/swarm/swarm_continuous_run.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 59a555d..bcf36b2 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -124,6 +124,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			// Hold out for the full target at first, then settle within tolerance
diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..4b9317b 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -226,6 +226,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
+			// Keep the reported convergence current between synchronizations
+			if !state.syncActive && currentCoherence != s.convergence.CurrentCoherence() {
+				s.convergence.Record(currentCoherence)
+			}
+
 			// Update peak coherence with slow decay
 			if currentCoherence > state.peakCoherence {
 				state.peakCoherence = currentCoherence
-- 
2.43.0


From b82732aa50b63818e7d0422cd52ec4636a93f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 19/54] fix: client coherence reports the current coherence,
 also before a run

---
 client/emerge/emerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/emerge/emerge.go b/client/emerge/emerge.go
index bcb153f..ff491d1 100644
--- a/client/emerge/emerge.go
+++ b/client/emerge/emerge.go
@@ -56,7 +56,7 @@ func (c *Client) Agents() map[string]*agent.Agent {
 // Coherence returns the current synchronization coherence (0 to 1).
 // Higher values indicate better synchronization among agents.
 func (c *Client) Coherence() float64 {
-	return c.swarm.CurrentCoherence()
+	return c.swarm.MeasureCoherence()
 }
 
 // IsConverged returns true if the swarm has achieved its target coherence.
-- 
2.43.0


From a75c86001717e4a50108bf6921fa699eff243a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:05 +0000
Subject: [PATCH 20/54] fix: ForEachAgent must visit the agents of swarms with
 more than 100 agents

---
 emerge/swarm/swarm.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..70176d5 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -610,12 +610,11 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
-	s.agents.Range(func(_, value any) bool {
-		if agent, ok := value.(*agent.Agent); ok {
-			return fn(agent)
+	for _, a := range s.collectAgents() {
+		if !fn(a) {
+			return
 		}
-		return true
-	})
+	}
 }
 
 // AutoScaleConfig returns a configuration that automatically scales based on swarm size.
-- 
2.43.0


From 622931944be87021d58118b8bfd4bf8d00a0af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 21/54] fix: disruption must affect swarms with more than 100
 agents

---
 emerge/swarm/swarm.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 70176d5..9842da6 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -566,19 +566,14 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	}
 
 	targetCount := int(float64(s.Size()) * percentage)
-	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
-		if disrupted >= targetCount {
-			return false
-		}
-
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
-		return true
-	})
+	// Disrupt a random selection, whichever storage the swarm uses
+	agents := s.collectAgents()
+	for i := range min(targetCount, len(agents)) {
+		j := i + random.Intn(len(agents)-i)
+		agents[i], agents[j] = agents[j], agents[i]
+		agents[i].SetPhase(random.Phase())
+	}
 
 	// Important: After disruption, the goal-directed sync may have already
 	// completed and returned from its AchieveSynchronization loop.
-- 
2.43.0


From 856680e6f1574aa448a75d7b48dc4f57954ad0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:08 +0000
Subject: [PATCH 22/54] fix: a custom agent builder must be honored for swarms
 with more than 100 agents

---
 emerge/swarm/swarm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 9842da6..72a041b 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,7 +290,12 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
-			s.agents.Store(a.ID, a)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+			} else {
+				s.agents.Store(a.ID, a)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 19a49d3cb4061de21d85c25becd5e08ae3375277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:09 +0000
Subject: [PATCH 23/54] fix: a custom topology must see the agents it connects

---
 emerge/swarm/swarm.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 72a041b..15d98d2 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -45,6 +45,7 @@ type Swarm struct {
 
 	// Track initialization state
 	connectionsEstablished bool
+	topology               func(*Swarm) error // Custom topology builder, if any
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,6 +149,14 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
+	// Build the custom topology now that the agents exist
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("failed to apply swarm option: topology build failed: %w", err)
+		}
+		s.connectionsEstablished = true
+	}
+
 	// Establish connections if not already done
 	if !s.connectionsEstablished {
 		s.establishConnections()
@@ -304,10 +313,7 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From 46205aea3a7066f7874124ddad838ec2bce12cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:10 +0000
Subject: [PATCH 24/54] fix: creating a large swarm must not leak idle worker
 goroutines

---
 emerge/swarm/swarm.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 15d98d2..e240e45 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -639,22 +639,16 @@ type WorkerPool struct {
 	workers   int
 	workQueue chan func()
 	quit      chan struct{}
+	start     sync.Once
 }
 
 // NewWorkerPool creates a new worker pool.
 func NewWorkerPool(workers int) *WorkerPool {
-	wp := &WorkerPool{
+	return &WorkerPool{
 		workers:   workers,
 		workQueue: make(chan func(), workers*2),
 		quit:      make(chan struct{}),
 	}
-
-	// Start workers
-	for range workers {
-		go wp.worker()
-	}
-
-	return wp
 }
 
 // worker processes tasks from the queue.
@@ -669,8 +663,14 @@ func (wp *WorkerPool) worker() {
 	}
 }
 
-// Submit adds work to the queue.
+// Submit adds work to the queue. Workers start with the first submission, so
+// that a pool that is never used holds no goroutines.
 func (wp *WorkerPool) Submit(work func()) {
+	wp.start.Do(func() {
+		for range wp.workers {
+			go wp.worker()
+		}
+	})
 	wp.workQueue <- work
 }
 
-- 
2.43.0


From c14be9d325a671183b31939845ec9d6c00cb9862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:11 +0000
Subject: [PATCH 25/54] fix: a nil goal config must be rejected instead of
 panicking

---
 emerge/swarm/swarm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index e240e45..91c5218 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -2,6 +2,7 @@ package swarm
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"runtime"
 	"sync"
@@ -278,6 +279,9 @@ func WithConfig(cfg config.Swarm) Option {
 // WithGoalConfig sets a custom configuration for goal-directed synchronization.
 func WithGoalConfig(cfg *Config) Option {
 	return func(s *Swarm) error {
+		if cfg == nil {
+			return errors.New("goal config must not be nil")
+		}
 		if err := cfg.Validate(); err != nil {
 			return fmt.Errorf("goal config validation failed: %w", err)
 		}
-- 
2.43.0


From aa000599ee2b715effcdeb7540a3784302a399e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:13 +0000
Subject: [PATCH 26/54] fix: settle the recovery config at construction (no
 panic on a negative interval, no race)

---
 emerge/swarm/swarm.go                | 8 ++++++++
 emerge/swarm/swarm_continuous_run.go | 5 -----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 91c5218..c1b5be6 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -197,6 +197,8 @@ func NewSwarmFromConfig(size int, goal core.State, cfg config.Swarm) (*Swarm, er
 		monitor:     monitoring.New(),
 		basin:       emerge.NewAttractorBasin(goal, cfg.BasinStrength, cfg.BasinWidth),
 		convergence: monitoring.NewConvergence(goal, goal.Coherence),
+
+		recoveryConfig: DefaultRecoveryConfig(goal.Coherence),
 	}
 
 	// Create agents
@@ -326,6 +328,12 @@ func WithTopology(builder func(*Swarm) error) Option {
 // This controls how the swarm detects and recovers from disruptions.
 func WithRecoveryConfig(cfg RecoveryConfig) Option {
 	return func(s *Swarm) error {
+		if cfg.CheckInterval < 0 {
+			return fmt.Errorf("recovery check interval must not be negative: got %v", cfg.CheckInterval)
+		}
+		if cfg.CheckInterval == 0 {
+			cfg = DefaultRecoveryConfig(s.goalState.Coherence)
+		}
 		s.recoveryConfig = cfg
 		return nil
 	}
diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index 4b9317b..e6ca6b1 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -160,11 +160,6 @@ func (s *Swarm) needsResync(state *monitorState, currentCoherence float64) bool
 // This method only exits when the context is canceled. For one-time
 // synchronization without continuous monitoring, use Run() instead.
 func (s *Swarm) RunContinuous(ctx context.Context) error {
-	// Initialize recovery config if not already set
-	if s.recoveryConfig.CheckInterval == 0 {
-		s.recoveryConfig = DefaultRecoveryConfig(s.goalState.Coherence)
-	}
-
 	// Create target pattern from goal state
 	targetPattern := &core.TargetPattern{
 		Phase:     s.goalState.Phase,
-- 
2.43.0


From f3401553a4097bbadccfb091f668d5df0091d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:14 +0000
Subject: [PATCH 27/54] fix: RunContinuous must not leave a synchronization
 running after it returns

---
 emerge/swarm/swarm_continuous_run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index e6ca6b1..e4c0d15 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -191,7 +191,6 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 
 	// Start initial synchronization
 	syncDone, syncCancel := startSync(ctx)
-	defer syncCancel()
 
 	// Monitoring state
 	ticker := time.NewTicker(s.recoveryConfig.CheckInterval)
@@ -204,6 +203,14 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		lastSyncTime:  time.Now(),
 	}
 
+	// Leave no synchronization running behind
+	defer func() {
+		syncCancel()
+		if state.syncActive {
+			<-syncDone
+		}
+	}()
+
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 42f478b16b5977b0dd1fa2fcc3c2cd10b941a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 28/54] fix: RunContinuous must keep recovering after a failed
 attempt

---
 emerge/swarm/swarm_continuous_run.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index e4c0d15..3e07173 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -216,15 +215,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
+			// Synchronization succeeded or gave up: continue monitoring,
+			// resynchronizing as needed until the context is canceled
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
-			}
-			// Synchronization completed successfully, continue monitoring
-
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
-- 
2.43.0


From c9b514765e497f4853430abc831e966cc4a804d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:09 +0000
Subject: [PATCH 29/54] fix: agents must see all their neighbors, whichever
 storage holds them

---
 emerge/agent/agent.go | 68 +++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index be3b73b..ef1be36 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,30 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
+	return len(a.connectedNeighbors())
+}
+
+// connectedNeighbors returns every neighbor, whichever storage holds it.
+func (a *Agent) connectedNeighbors() []*Agent {
+	var list []*Agent
+	seen := make(map[string]struct{})
 	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
+		a.optimizedNeighbors.Range(func(id string, neighbor *Agent) bool {
+			seen[id] = struct{}{}
+			list = append(list, neighbor)
+			return true
+		})
 	}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+	a.neighbors.Range(func(key, value any) bool {
+		id, isID := key.(string)
+		neighbor, isAgent := value.(*Agent)
+		if _, dup := seen[id]; isID && isAgent && !dup {
+			list = append(list, neighbor)
+		}
 		return true
 	})
-
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return list
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,9 +288,8 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
+	// The fixed-size storage refuses new neighbors when it is full
+	if !a.useOptimizedNeighbors || !a.optimizedNeighbors.Store(otherID, other) {
 		a.neighbors.Store(otherID, other)
 	}
 }
@@ -292,16 +298,16 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +316,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedNeighbors()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -483,17 +479,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedNeighbors()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From a420a9fdca1860d0e994bb10620c8dc4f6f47202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 30/54] fix: neighbor density must stay within [0, 1]

---
 emerge/agent/agent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index ef1be36..461b945 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -365,7 +365,7 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
-	density := float64(neighborCount) / float64(maxNeighbors)
+	density := float64(neighborCount) / float64(max(maxNeighbors, neighborCount))
 
 	// Store context
 	a.context.Store(core.Context{
-- 
2.43.0


From ae3acb1cc053475ed9f5d78cc7a3d3d6e5997e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 31/54] fix: swarm configuration must reject NaN

---
 internal/config/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index e347287..2932120 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -296,7 +296,7 @@ func (c *Swarm) validateProbabilities(errors *ValidationErrors) {
 	}
 
 	for field, value := range probabilities {
-		if value < 0 || value > 1 {
+		if math.IsNaN(value) || value < 0 || value > 1 {
 			*errors = append(*errors, ValidationError{
 				Field: field, Value: value, Message: "must be between 0 and 1",
 			})
@@ -356,7 +356,7 @@ func (c *Swarm) validatePositiveParameters(errors *ValidationErrors) {
 	for field, value := range positiveParams {
 		switch v := value.(type) {
 		case float64:
-			if v <= 0 {
+			if math.IsNaN(v) || v <= 0 {
 				*errors = append(*errors, ValidationError{
 					Field: field, Value: v, Message: "must be positive",
 				})
-- 
2.43.0


From 0564cd2d516aa5a9341e76fc1aa865abf5602624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 32/54] fix: large-swarm agents must honor the same
 configuration as small-swarm ones

---
 emerge/agent/agent.go | 51 ++-----------------------------------------
 1 file changed, 2 insertions(+), 49 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 461b945..b84719b 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -108,56 +108,9 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 		}
 	}
 
-	// Create options from config
-	opts := []Option{
-		WithPhase(cfg.Phase),
-		WithFrequency(cfg.Frequency),
-		WithEnergy(cfg.InitialEnergy),
-		WithInfluence(cfg.Influence),
-		WithStubbornness(cfg.Stubbornness),
-		WithSwarmInfo(cfg.SwarmSize, maxNeighbors),
-		WithLocalGoal(cfg.LocalGoal),
-	}
-
-	// Handle randomization
-	if cfg.RandomizePhase {
-		opts = append(opts, WithRandomPhase())
-	}
-	if cfg.RandomizeLocalGoal {
-		opts = append(opts, WithRandomLocalGoal())
-	}
-	if cfg.RandomizeFrequency {
-		opts = append(opts, WithRandomFrequency())
-	}
-
-	// Add decision maker based on type
-	if cfg.DecisionMakerType == "simple" {
-		opts = append(opts, WithDecisionMaker(&decision.SimpleDecisionMaker{}))
-	}
-
-	// Add goal manager based on type
-	if cfg.GoalManagerType == "weighted" {
-		opts = append(opts, WithGoalManager(&goal.WeightedManager{}))
-	}
-
-	// Add resource manager based on type
-	if cfg.ResourceManagerType == "token" && cfg.MaxTokens > 0 {
-		opts = append(opts, WithResourceManager(resource.NewTokenManager(cfg.MaxTokens)))
-	}
-
-	// Add strategy based on type
-	switch cfg.StrategyType {
-	case strategyPhaseNudge:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
-	case strategyFrequencyLock:
-		opts = append(opts, WithStrategy(&strategy.FrequencyLock{SyncRate: 0.5}))
-	case "energy_aware":
-		opts = append(opts, WithStrategy(&strategy.EnergyAware{Threshold: 10}))
-	default:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
-	}
+	cfg.AssumedMaxNeighbors = maxNeighbors
 
-	return New(id, opts...), nil
+	return NewFromConfig(id, cfg)
 }
 
 // Phase returns the agent's current phase.
-- 
2.43.0


From aacf02cd643b40d4c492f5a59ca9c6937c60e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:35 +0000
Subject: [PATCH 33/54] fix: pooled agents must be usable and carry nothing
 over from their previous use

---
 emerge/agent/pool.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..90b6be9 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -7,17 +7,18 @@ import (
 
 	"github.com/carlisia/bio-adapt/emerge/core"
 	"github.com/carlisia/bio-adapt/emerge/decision"
+	"github.com/carlisia/bio-adapt/emerge/goal"
+	"github.com/carlisia/bio-adapt/emerge/strategy"
 	"github.com/carlisia/bio-adapt/internal/random"
+	"github.com/carlisia/bio-adapt/internal/resource"
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
 var Pool = &PoolManager{
 	pool: sync.Pool{
 		New: func() interface{} {
-			// Create a new agent with minimal initialization
-			a := &Agent{}
-			// neighbors is already a sync.Map field, not a pointer
-			return a
+			// Create a fully initialized agent; Get gives it its ID
+			return New("")
 		},
 	},
 	stats: &PoolStats{},
@@ -96,7 +97,8 @@ func (a *Agent) Reset(id string) {
 		Stubbornness: random.Float64() * 0.3,
 	})
 
-	// Clear neighbors but keep the map allocated
+	// Clear neighbors but keep the storage allocated
+	a.optimizedNeighbors.Clear()
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
@@ -105,6 +107,13 @@ func (a *Agent) Reset(id string) {
 	// Reset context
 	a.context.Store(core.Context{})
 
+	// Start over with full resources and the default strategy and goals
+	a.resources = resource.NewTokenManager(100)
+	a.strategy = &strategy.PhaseNudge{Rate: 0.3}
+	a.goalManager = &goal.WeightedManager{}
+	a.swarmSize = 0
+	a.assumedMaxNeighbors = 0
+
 	// Keep decision maker if set, otherwise use default
 	if a.decider == nil {
 		a.decider = &decision.SimpleDecisionMaker{}
@@ -116,6 +125,7 @@ func (a *Agent) Clear() {
 	a.ID = ""
 
 	// Clear neighbors
+	a.optimizedNeighbors.Clear()
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
-- 
2.43.0


From b57bd0aacc28d6a9cdd328b9e3a6e8cc6c2f02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:53 +0000
Subject: [PATCH 34/54] fix: tuning a valid goal config must keep it valid

---
 emerge/swarm/config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e3e9211 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
@@ -425,8 +425,8 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.3
 		c.Variation.BaseRange[1] *= 1.4
 		c.Resonance.NoiseMagnitude *= 1.5
-		c.Resonance.AffectedAgents *= 1.5
-		c.Resonance.ActivationRate *= 1.8
+		c.Resonance.AffectedAgents = minValue(1.0, c.Resonance.AffectedAgents*1.5)
+		c.Resonance.ActivationRate = minValue(1.0, c.Resonance.ActivationRate*1.8)
 
 	case trait.Precision:
 		// Tighten tolerances for accuracy
@@ -458,7 +458,7 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge = 0.015
 		c.Variation.BaseRange[0] *= 0.8
 		c.Variation.BaseRange[1] *= 0.9
-		c.Strategy.UpdateInterval = time.Duration(minValue(50, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		c.Strategy.UpdateInterval = min(50*time.Millisecond, c.Strategy.UpdateInterval)
 
 	case agentCount <= 200:
 		// Medium swarms use default tolerances
-- 
2.43.0


From 809e252c87b15f4a1b0a83fff61edad26e4cc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 35/54] fix: tasks must not be lost when the batch queue is
 full

---
 simulations/emerge/simulation/agent.go         | 10 +++++-----
 simulations/emerge/simulation/batch_manager.go |  9 ++++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..94dd42a 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -570,16 +570,16 @@ func (w *Workload) sendBatch() {
 	batch := make([]Task, len(w.pendingTasks))
 	copy(batch, w.pendingTasks)
 
+	// Send to batch manager; keep the tasks for the next beat if its queue is full
+	if w.batchManager != nil && !w.batchManager.SubmitBatch(w.id, batch) {
+		return
+	}
+
 	// Clear pending
 	w.pendingTasks = w.pendingTasks[:0]
 
 	// Update metrics
 	w.batchesSent++
-
-	// Send to batch manager
-	if w.batchManager != nil {
-		w.batchManager.SubmitBatch(w.id, batch)
-	}
 }
 
 // Reset resets the workload counters
diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..286c7da 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -54,8 +54,9 @@ func NewBatchManager() *BatchManager {
 	}
 }
 
-// SubmitBatch submits a batch from an agent
-func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
+// SubmitBatch submits a batch from an agent. It returns false when the queue
+// is full: the batch was not taken and the agent should submit it again later.
+func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) bool {
 	batch := AgentBatch{
 		AgentID:   agentID,
 		Tasks:     tasks,
@@ -65,8 +66,10 @@ func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
 	select {
 	case bm.queue <- batch:
 		// Batch queued
+		return true
 	default:
-		// Queue full, drop batch (shouldn't happen in normal operation)
+		// Queue full
+		return false
 	}
 }
 
-- 
2.43.0


From 4bed56e7b719943571a34dbfb3639c1ebdee36e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 36/54] fix: resetting the batch manager must not block on a
 queue emptied concurrently

---
 simulations/emerge/simulation/batch_manager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 286c7da..8c8cd4c 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -183,9 +183,13 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchTime = time.Time{}
 	bm.lastBatchSize = 0
 
-	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	// Clear queue (without waiting: the processor takes from it as well)
+	for empty := false; !empty; {
+		select {
+		case <-bm.queue:
+		default:
+			empty = true
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From 9984671694565aa5ddf07f8bbdedd8fe5e561819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 37/54] fix: waiting for synchronized batches must not spin a
 core for the whole window

---
 simulations/emerge/simulation/batch_manager.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 8c8cd4c..f3f858a 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -98,7 +98,7 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 	timer := time.NewTimer(BatchWindow)
 	defer timer.Stop()
 
-	for {
+	for len(collected) < MaxBatchSize {
 		select {
 		case <-timer.C:
 			// Window closed
@@ -106,14 +106,11 @@ func (bm *BatchManager) collectSynchronizedBatches(initial AgentBatch) []Task {
 		case additional := <-bm.queue:
 			// Add to collected batch
 			collected = append(collected, additional.Tasks...)
-		default:
-			// No more batches immediately available
-			if len(collected) >= MaxBatchSize {
-				// Batch is full
-				return collected
-			}
 		}
 	}
+
+	// Batch is full
+	return collected
 }
 
 // processCollectedBatch processes a collected batch
-- 
2.43.0


From 724d74cf2fbbb19be84582c070727caa04590de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 38/54] fix: task generation must not race with snapshots and
 resets

---
 simulations/emerge/simulation/agent.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index 94dd42a..1a838e4 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -309,20 +309,20 @@ func (w *Workload) generateTasks(ctx context.Context) {
 			}
 
 			// Pattern-specific task generation logic
-			shouldGenerate := w.shouldGenerateTask()
-			if !shouldGenerate {
+			w.mu.Lock()
+			if !w.shouldGenerateTask() {
+				w.mu.Unlock()
 				continue
 			}
 
 			// Generate multiple tasks for burst/high-frequency patterns
 			numTasks := w.getTaskBatchSize()
 			for range numTasks {
-				task := w.createTask()
-				w.mu.Lock()
-				w.pendingTasks = append(w.pendingTasks, task)
+				w.pendingTasks = append(w.pendingTasks, w.createTask())
 				w.tasksGenerated++
-				w.mu.Unlock()
 			}
+			w.lastRequestTime = time.Now()
+			w.mu.Unlock()
 
 			// Update interval for mixed pattern
 			if w.pattern == pattern.Mixed {
-- 
2.43.0


From 489746832f1120935a1dd11750e4754971859d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 39/54] fix: resuming a simulation that is not paused must not
 start a second synchronization

---
 simulations/emerge/simulation/simulation.go | 39 +++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..e5ff5e5 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -50,7 +50,6 @@ type Simulation struct {
 	resetTime       time.Time
 	startTime       time.Time
 	parentCtx       context.Context // Parent context from Start
-	swarmCtx        context.Context
 	swarmCancel     context.CancelFunc
 }
 
@@ -60,18 +59,11 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.running = true
 	s.startTime = time.Now()
 	s.parentCtx = ctx
-	// Create swarm context that we can cancel on pause
-	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
+	if !s.paused {
+		s.startSwarm()
+	}
 	s.mu.Unlock()
 
-	// Start swarm synchronization
-	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-			// Log error but don't crash
-			_ = err
-		}
-	}()
-
 	// Start agents
 	for _, workload := range s.workloads {
 		workload.Start(ctx, s.batch)
@@ -292,19 +284,30 @@ func (s *Simulation) Pause() {
 func (s *Simulation) Resume() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	if !s.paused {
+		return // The swarm is already running
+	}
 	s.paused = false
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
-		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
-		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
-				// Log error but don't crash
-				_ = err
-			}
-		}()
+		s.startSwarm()
 	}
 }
 
+// startSwarm runs swarm synchronization until paused or stopped.
+// The caller holds s.mu.
+func (s *Simulation) startSwarm() {
+	// Create swarm context that we can cancel on pause
+	ctx, cancel := context.WithCancel(s.parentCtx)
+	s.swarmCancel = cancel
+	go func() {
+		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+			// Log error but don't crash
+			_ = err
+		}
+	}()
+}
+
 // Snapshot returns current state
 func (s *Simulation) Snapshot() Snapshot {
 	s.mu.RLock()
-- 
2.43.0


From 783221f2d8a0ee2a244af3b8d67ba354c95b2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 40/54] fix: a running simulation must keep recovering from
 disruptions and resets

---
 simulations/emerge/simulation/simulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e5ff5e5..10ce403 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -301,7 +301,7 @@ func (s *Simulation) startSwarm() {
 	ctx, cancel := context.WithCancel(s.parentCtx)
 	s.swarmCancel = cancel
 	go func() {
-		if err := s.emergeClient.Start(ctx); err != nil && !errors.Is(err, context.Canceled) {
+		if err := s.emergeClient.Swarm().RunContinuous(ctx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
 		}
-- 
2.43.0


From d8094597f5ac9da7d1115edd80174e27f4544e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:09 +0000
Subject: [PATCH 41/54] fix: report the peak coherence and the time to converge

---
 simulations/emerge/simulation/simulation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 10ce403..75b87c9 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -328,17 +328,18 @@ func (s *Simulation) Snapshot() Snapshot {
 		totalPendingTasks += snapshot.PendingTasks
 	}
 
-	// Get metrics
-	metrics := s.metrics.Current()
-
 	// Calculate coherence (use cached value if paused)
 	var coherence float64
 	if s.paused {
 		coherence = s.pausedCoherence
 	} else {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
+		s.metrics.UpdateCoherence(coherence)
 	}
 
+	// Get metrics
+	metrics := s.metrics.Current()
+
 	// Get current batch size from queue depth
 	currentBatchSize := len(s.batch.queue)
 
@@ -370,6 +371,8 @@ func (s *Simulation) Snapshot() Snapshot {
 
 // Statistics returns final statistics
 func (s *Simulation) Statistics() Statistics {
+	finalCoherence := s.emergeClient.Swarm().MeasureCoherence()
+	s.metrics.UpdateCoherence(finalCoherence)
 	metrics := s.metrics.Final()
 
 	return Statistics{
@@ -380,7 +383,7 @@ func (s *Simulation) Statistics() Statistics {
 		CostWithSync:     metrics.CostWithSync,
 		TotalSavings:     metrics.TotalSavings,
 		SavingsPercent:   metrics.SavingsPercent,
-		FinalCoherence:   s.emergeClient.Swarm().MeasureCoherence(),
+		FinalCoherence:   finalCoherence,
 		PeakCoherence:    metrics.PeakCoherence,
 		TimeToConverge:   metrics.TimeToConverge,
 	}
-- 
2.43.0


From 240131ae83a7c80cb57051d58adb8a175295326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 42/54] fix: coherence modifiers must stay within their
 documented range

---
 simulations/emerge/simulation/pattern/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/pattern/pattern.go b/simulations/emerge/simulation/pattern/pattern.go
index bd69cdc..152f7e4 100644
--- a/simulations/emerge/simulation/pattern/pattern.go
+++ b/simulations/emerge/simulation/pattern/pattern.go
@@ -217,7 +217,7 @@ func GetCoherenceModifier(goalType int, agentCount int, p Type) float64 {
 		modifier *= 0.8 // Not enough activity for small swarms
 	}
 
-	return modifier
+	return max(modifier, 0.5)
 }
 
 // Qualifier constants for pattern evaluation
-- 
2.43.0


From b4b159b530a4fdd25647f89998ade752694baee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:38 +0000
Subject: [PATCH 43/54] fix: hold out for the requested coherence before
 settling for the practical limit

---
 emerge/swarm/goal_directed.go | 5 +++--
 emerge/swarm/swarm.go         | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index bcf36b2..b1b5183 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -127,8 +127,9 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
-			// Hold out for the full target at first, then settle within tolerance
-			settling := coherence >= target.Coherence || iterationCount > settleAfter
+			// Hold out for all that was asked for at first, then settle within
+			// tolerance of what is practical
+			settling := coherence >= math.Max(target.Coherence, gds.swarm.requested) || iterationCount > settleAfter
 			if settling && gds.isPatternAchieved(currentPattern, target) {
 				return nil // Success!
 			}
diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index c1b5be6..bf23a62 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -36,6 +36,7 @@ type Swarm struct {
 	optimized   bool           // Whether using optimized storage
 
 	goalState core.State
+	requested float64 // Coherence asked for, before limiting it to what is practical
 	config    config.Swarm
 	size      int
 
@@ -85,6 +86,7 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 
 	// Validate coherence target and adjust if impossible
 	limits := GetCoherenceLimits(size)
+	requestedCoherence := goal.Coherence
 	if goal.Coherence > limits.Practical {
 		// Adjust to practical limit with small buffer
 		goal.Coherence = limits.Practical
@@ -99,6 +101,7 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		basin:          emerge.NewAttractorBasin(goal, cfg.BasinStrength, cfg.BasinWidth),
 		convergence:    monitoring.NewConvergence(goal, goal.Coherence),
 		optimized:      size > OptimizedSwarmThreshold,
+		requested:      requestedCoherence,
 		recoveryConfig: DefaultRecoveryConfig(goal.Coherence),
 	}
 
-- 
2.43.0


From f1729844e29a1be07805f7fbe556cf828c23839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 44/54] fix: goal configuration validation must refuse values
 that are not numbers

---
 emerge/swarm/config.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e3e9211..8cf7655 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -507,21 +507,21 @@ func (c *Config) Validate() error {
 }
 
 func (c *Config) validateConvergence() error {
-	if c.Convergence.BaseAdjustmentScale < 0 || c.Convergence.BaseAdjustmentScale > 1 {
+	if !(c.Convergence.BaseAdjustmentScale >= 0 && c.Convergence.BaseAdjustmentScale <= 1) {
 		return fmt.Errorf("BaseAdjustmentScale must be between 0 and 1, got %f", c.Convergence.BaseAdjustmentScale)
 	}
-	if c.Convergence.PhaseConvergenceGoal < 0 || c.Convergence.PhaseConvergenceGoal > 1 {
+	if !(c.Convergence.PhaseConvergenceGoal >= 0 && c.Convergence.PhaseConvergenceGoal <= 1) {
 		return fmt.Errorf("PhaseConvergenceGoal must be between 0 and 1, got %f", c.Convergence.PhaseConvergenceGoal)
 	}
 	return nil
 }
 
 func (c *Config) validateThresholds() error {
-	if c.Thresholds.ModerateCoherence > c.Thresholds.HighCoherence {
+	if !(c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence) {
 		return fmt.Errorf("ModerateCoherence (%f) must be <= HighCoherence (%f)",
 			c.Thresholds.ModerateCoherence, c.Thresholds.HighCoherence)
 	}
-	if c.Thresholds.HighCoherence > c.Thresholds.VeryHighCoherence {
+	if !(c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence) {
 		return fmt.Errorf("HighCoherence (%f) must be <= VeryHighCoherence (%f)",
 			c.Thresholds.HighCoherence, c.Thresholds.VeryHighCoherence)
 	}
@@ -529,14 +529,14 @@ func (c *Config) validateThresholds() error {
 }
 
 func (c *Config) validateVariation() error {
-	if c.Variation.BaseRange[0] < 0 || c.Variation.BaseRange[1] < 0 {
+	if !(c.Variation.BaseRange[0] >= 0 && c.Variation.BaseRange[1] >= 0) {
 		return fmt.Errorf("variation ranges must be positive")
 	}
 	if c.Variation.BaseRange[0] > c.Variation.BaseRange[1] {
 		return fmt.Errorf("variation min (%f) must be <= max (%f)",
 			c.Variation.BaseRange[0], c.Variation.BaseRange[1])
 	}
-	if c.Variation.PerturbationChance < 0 || c.Variation.PerturbationChance > 1 {
+	if !(c.Variation.PerturbationChance >= 0 && c.Variation.PerturbationChance <= 1) {
 		return fmt.Errorf("PerturbationChance must be between 0 and 1, got %f", c.Variation.PerturbationChance)
 	}
 	return nil
@@ -553,10 +553,10 @@ func (c *Config) validateStrategy() error {
 }
 
 func (c *Config) validateResonance() error {
-	if c.Resonance.AffectedAgents < 0 || c.Resonance.AffectedAgents > 1 {
+	if !(c.Resonance.AffectedAgents >= 0 && c.Resonance.AffectedAgents <= 1) {
 		return fmt.Errorf("AffectedAgents must be between 0 and 1, got %f", c.Resonance.AffectedAgents)
 	}
-	if c.Resonance.ActivationRate < 0 || c.Resonance.ActivationRate > 1 {
+	if !(c.Resonance.ActivationRate >= 0 && c.Resonance.ActivationRate <= 1) {
 		return fmt.Errorf("ActivationRate must be between 0 and 1, got %f", c.Resonance.ActivationRate)
 	}
 	return nil
-- 
2.43.0


From 9244d0a11a0abec027bb07d51a81324842216576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:34 +0000
Subject: [PATCH 45/54] fix: pool statistics must count only agents that were
 newly created

---
 emerge/agent/pool.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 90b6be9..ff3a66e 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -14,14 +14,16 @@ import (
 )
 
 // Pool manages a pool of reusable Agent objects to reduce allocations.
-var Pool = &PoolManager{
-	pool: sync.Pool{
-		New: func() interface{} {
-			// Create a fully initialized agent; Get gives it its ID
-			return New("")
-		},
-	},
-	stats: &PoolStats{},
+var Pool = newPoolManager()
+
+func newPoolManager() *PoolManager {
+	p := &PoolManager{stats: &PoolStats{}}
+	p.pool.New = func() interface{} {
+		p.stats.news.Add(1)
+		// Create a fully initialized agent; Get gives it its ID
+		return New("")
+	}
+	return p
 }
 
 // PoolManager provides pooled Agent objects to reduce GC pressure.
@@ -49,11 +51,6 @@ func (p *PoolManager) Get(id string) *Agent {
 		panic("pool returned non-Agent type")
 	}
 
-	// Check if this is a newly created agent
-	if a.ID == "" {
-		p.stats.news.Add(1)
-	}
-
 	// Initialize/reset the agent
 	a.Reset(id)
 	return a
-- 
2.43.0


From 50f66abeb4204f862f083ac789b33623cc465016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:17 +0000
Subject: [PATCH 46/54] fix: end the simulation on a signal also after a scale,
 goal or pattern switch

---
 simulations/emerge/main.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..e038bc9 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -55,11 +55,13 @@ func main() {
 	config.UpdateInterval = *updateInterval
 	config.Timeout = *timeout
 
-	// Create context with cancellation
-	ctx, cancel := context.WithCancel(context.Background())
+	// Handle graceful shutdown, whichever run is in progress by then
+	baseCtx, stop := context.WithCancel(context.Background())
+	defer stop()
+	go handleSignals(stop)
 
-	// Handle graceful shutdown
-	go handleSignals(cancel)
+	// Create context with cancellation
+	ctx, cancel := context.WithCancel(baseCtx)
 
 	// Run simulation loop (allows scale switching)
 	for {
@@ -164,7 +166,7 @@ func main() {
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
 			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
+			ctx, cancel = context.WithCancel(baseCtx)
 			continue
 		}
 		break
-- 
2.43.0


From f10b5c060b7475241b495c2aff5dd04c19fe6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 47/54] fix: dashboard panels must take phases just below a
 full turn as close to zero

---
 simulations/display/display.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index 8dad981..deb96ca 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -1108,7 +1108,7 @@ func (d *TerminalDisplay) updateAgentsDisplay(agents []AgentSnapshot) {
 			case math.Abs(a.Phase) < 0.5 || math.Abs(a.Phase-2*math.Pi) < 0.5:
 				syncIndicator = syncGreen // GOOD - synchronized
 				phaseColor = cell.ColorGreen
-			case math.Abs(a.Phase) < 1.0:
+			case math.Abs(a.Phase) < 1.0 || math.Abs(a.Phase-2*math.Pi) < 1.0:
 				syncIndicator = syncYellow // Almost there
 				phaseColor = cell.ColorYellow
 			default:
@@ -1823,8 +1823,15 @@ func calculateMeanField(agents []AgentSnapshot) (meanPhase, meanMagnitude float6
 	return
 }
 
+// signedPhase maps a phase to (-π, π], so that phases just below a full turn
+// are close to zero.
+func signedPhase(phase float64) float64 {
+	return math.Remainder(phase, 2*math.Pi)
+}
+
 // getAgentColor determines the color for an agent based on coherence
 func getAgentColor(phase, meanPhase, meanMagnitude float64) cell.Color {
+	phase = signedPhase(phase)
 	if meanMagnitude < 0.3 {
 		// Low coherence - color by phase group
 		phaseGroup := int((phase + math.Pi) * 3 / (2 * math.Pi))
@@ -1923,7 +1930,7 @@ func (d *TerminalDisplay) displayLoadDistribution(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Map phase to region
-		region := int((agent.Phase + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
+		region := int((signedPhase(agent.Phase) + math.Pi) / (2 * math.Pi) * float64(phaseRegions))
 		if region >= phaseRegions {
 			region = phaseRegions - 1
 		}
@@ -2018,7 +2025,7 @@ func (d *TerminalDisplay) displayLatencyHistogram(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		// Phase variance affects latency
-		variance := math.Abs(agent.Phase)
+		variance := math.Abs(signedPhase(agent.Phase))
 		latency := baseLatency + variance*5
 		bin := int(latency / 10)
 		if bin >= bins {
@@ -2108,7 +2115,7 @@ func (d *TerminalDisplay) displayScheduleAlignment(snapshot SimulationSnapshot)
 	late := 0
 
 	for _, agent := range snapshot.Agents {
-		drift := agent.Phase // Phase represents timing drift
+		drift := signedPhase(agent.Phase) // Phase represents timing drift
 		switch {
 		case math.Abs(drift) < 0.1:
 			onTime++
@@ -2160,9 +2167,9 @@ func (d *TerminalDisplay) displaySystemHealth(snapshot SimulationSnapshot) {
 
 	for _, agent := range snapshot.Agents {
 		switch {
-		case snapshot.Disrupted && math.Abs(agent.Phase) > 2:
+		case snapshot.Disrupted && math.Abs(signedPhase(agent.Phase)) > 2:
 			failed++
-		case math.Abs(agent.Phase) > 1:
+		case math.Abs(signedPhase(agent.Phase)) > 1:
 			degraded++
 		default:
 			healthy++
@@ -2306,6 +2313,7 @@ func createEmptyGrid(width, height int) [][]rune {
 
 // getAgentCharacter returns the character to display for an agent based on phase
 func getAgentCharacter(phase float64) rune {
+	phase = signedPhase(phase)
 	switch {
 	case math.Abs(phase) < 0.5:
 		return '●'
-- 
2.43.0


From 5bbadd0b7dd8f845d81510f9b52da1e192ff625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 48/54] fix: similarity of two constant patterns was not a
 number

---
 emerge/monitoring/patterns.go | 6 ++++--
 internal/emerge/pattern.go    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index 09ca564..6d407f0 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -98,8 +98,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // equal amplitudes, including those of two constant patterns
+	if ampDiff := math.Abs(p.Amplitude - other.Amplitude); ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index b122554..c1429f7 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -99,8 +99,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 	}
 
 	// Compare amplitudes
-	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // equal amplitudes, including those of two constant patterns
+	if ampDiff := math.Abs(p.Amplitude - other.Amplitude); ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
-- 
2.43.0


From ee0d1909a54c3468ca1448e44e6ad10dddca6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 49/54] fix: keys and events termdash does not know must not
 end the simulation

Without an error handler termdash panics on them, so Ctrl+^ (or a focus or
paste report of the terminal) crashed the program and left the terminal raw.
---
 simulations/display/display.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index deb96ca..edd0f72 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -2663,6 +2663,10 @@ func formatDuration(d time.Duration) string {
 func (d *TerminalDisplay) Run(ctx context.Context, controller *KeyboardController) error {
 	d.controller = controller
 
+	// Keys and events termdash has no name for (Ctrl+^, for one) are reported
+	// as errors, and without a handler they would panic: they mean nothing here.
+	ignoreUnknownInput := termdash.ErrorHandler(func(error) {})
+
 	// Run termdash with keyboard subscriber if controller is provided
 	if controller != nil {
 		return termdash.Run(ctx, d.terminal, d.container,
@@ -2672,11 +2676,13 @@ func (d *TerminalDisplay) Run(ctx context.Context, controller *KeyboardControlle
 				}
 			}),
 			termdash.RedrawInterval(100*time.Millisecond),
+			ignoreUnknownInput,
 		)
 	}
 
 	// Run without keyboard handling if no controller
 	return termdash.Run(ctx, d.terminal, d.container,
 		termdash.RedrawInterval(100*time.Millisecond),
+		ignoreUnknownInput,
 	)
 }
-- 
2.43.0


From 005d0c524732d0e3d95e126e1799b115dec81fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 50/54] fix: the dashboard must not draw on a terminal that is
 being closed

Termdash redraws on its own shortly after a key. When that key ended the
session, the redraw met tcell closing its screen: the program could crash or
leave the terminal on the alternate screen.
---
 simulations/display/display.go | 47 ++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/simulations/display/display.go b/simulations/display/display.go
index edd0f72..197e877 100644
--- a/simulations/display/display.go
+++ b/simulations/display/display.go
@@ -6,6 +6,7 @@ package display
 import (
 	"context"
 	"fmt"
+	"image"
 	"math"
 	"os"
 	"strings"
@@ -44,7 +45,7 @@ const (
 // TerminalDisplay implements the Display interface using termdash
 type TerminalDisplay struct {
 	// Terminal components
-	terminal   *tcell.Terminal
+	terminal   *closableTerminal
 	container  *container.Container
 	controller *KeyboardController
 
@@ -159,7 +160,7 @@ func (d *TerminalDisplay) Initialize() error {
 	if err != nil {
 		return fmt.Errorf("failed to create terminal: %w", err)
 	}
-	d.terminal = t
+	d.terminal = &closableTerminal{Terminal: t}
 
 	// Create widgets
 	if err := d.createWidgets(); err != nil {
@@ -174,6 +175,48 @@ func (d *TerminalDisplay) Initialize() error {
 	return nil
 }
 
+// closableTerminal ignores drawing after Close. Termdash redraws on its own
+// shortly after a key, possibly while or after the terminal is closed, and
+// tcell does not allow for that.
+type closableTerminal struct {
+	terminalapi.Terminal
+	mu     sync.Mutex
+	closed bool
+}
+
+// draw runs f unless the terminal has been closed.
+func (t *closableTerminal) draw(f func() error) error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		return nil
+	}
+	return f()
+}
+
+// Clear implements terminalapi.Terminal.Clear.
+func (t *closableTerminal) Clear(opts ...cell.Option) error {
+	return t.draw(func() error { return t.Terminal.Clear(opts...) })
+}
+
+// Flush implements terminalapi.Terminal.Flush.
+func (t *closableTerminal) Flush() error {
+	return t.draw(t.Terminal.Flush)
+}
+
+// SetCell implements terminalapi.Terminal.SetCell.
+func (t *closableTerminal) SetCell(p image.Point, r rune, opts ...cell.Option) error {
+	return t.draw(func() error { return t.Terminal.SetCell(p, r, opts...) })
+}
+
+// Close implements terminalapi.Terminal.Close.
+func (t *closableTerminal) Close() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	t.closed = true
+	t.Terminal.Close()
+}
+
 // createWidgets initializes all display widgets
 func (d *TerminalDisplay) createWidgets() error {
 	var err error
-- 
2.43.0


From 69e19f2584f80404e9d88e3f4d6b428071b8efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 51/54] fix: tuning must keep the update interval a positive
 duration however often it is applied

---
 emerge/swarm/config.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index 8cf7655..d70ed60 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -2,6 +2,7 @@ package swarm
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/carlisia/bio-adapt/emerge/goal"
@@ -395,7 +396,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.2
 		c.Variation.BaseRange[1] *= 1.3
 		c.Variation.PerturbationMagnitude *= 0.7
-		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 1.5)
+		c.Strategy.UpdateInterval = scaleInterval(c.Strategy.UpdateInterval, 1.5)
 		c.Resonance.NoiseMagnitude *= 0.6
 
 	case trait.Speed:
@@ -404,12 +405,12 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Convergence.ToleranceSmall *= 1.5
 		c.Convergence.ToleranceMedium *= 1.5
 		c.Convergence.ToleranceLarge *= 1.5
-		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.5)
+		c.Strategy.UpdateInterval = scaleInterval(c.Strategy.UpdateInterval, 0.5)
 		c.Strategy.MaxIterationsFactor *= 0.7
 
 	case trait.Efficiency:
 		// Reduce resource usage
-		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 2.0)
+		c.Strategy.UpdateInterval = scaleInterval(c.Strategy.UpdateInterval, 2.0)
 		c.Variation.PerturbationChance *= 0.5
 		c.Resonance.AffectedAgents *= 0.5
 		c.Strategy.ExplorationBonusMax *= 0.7
@@ -417,7 +418,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 	case trait.Throughput:
 		// Optimize for maximum processing
 		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
-		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
+		c.Strategy.UpdateInterval = scaleInterval(c.Strategy.UpdateInterval, 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
 	case trait.Resilience:
@@ -440,6 +441,16 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 	return c
 }
 
+// scaleInterval multiplies an update interval by a tuning factor, keeping it a
+// positive duration however often a configuration is tuned.
+func scaleInterval(d time.Duration, factor float64) time.Duration {
+	scaled := float64(d) * factor
+	if scaled >= math.MaxInt64 {
+		return math.MaxInt64
+	}
+	return max(1, time.Duration(scaled))
+}
+
 // WithSize adjusts the configuration for a specific swarm size.
 func (c *Config) WithSize(agentCount int) *Config {
 	switch {
-- 
2.43.0


From ae23fa60036bd5ab28ac7f6412a3c3873e22b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:11 +0000
Subject: [PATCH 52/54] fix: the batching preset for small workloads must pass
 its own validation (intervals were left at zero)

---
 internal/config/swarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index 2932120..a188b45 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -224,6 +224,8 @@ func ForBatching(workloadCount int, batchWindow time.Duration) Swarm {
 			BasinWidth:            2.5 * math.Pi,
 			BaseConfidence:        0.9,
 			InfluenceDefault:      0.85,
+			AgentUpdateInterval:   50 * time.Millisecond,
+			MonitoringInterval:    100 * time.Millisecond,
 			AutoScale:             false,
 		}
 	} else {
-- 
2.43.0


From 943979181d46a5f944b26ef405c4c9a3ec5e6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 53/54] fix: create custom agents once, after all options

---
 emerge/swarm/swarm.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index bf23a62..68763c8 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -48,6 +48,7 @@ type Swarm struct {
 	// Track initialization state
 	connectionsEstablished bool
 	topology               func(*Swarm) error // Custom topology builder, if any
+	agentBuilder           func(id string, swarmSize int, cfg config.Swarm) *agent.Agent
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -131,8 +132,12 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		return nil, fmt.Errorf("swarm size %d exceeds configured maximum %d", size, s.config.MaxSwarmSize)
 	}
 
-	// Create agents if not already created by options
-	if s.optimized {
+	// Create agents
+	if s.agentBuilder != nil {
+		if err := s.createCustomAgents(); err != nil {
+			return nil, fmt.Errorf("failed to create agents: %w", err)
+		}
+	} else if s.optimized {
 		// Use optimized creation for large swarms
 		if len(s.agentSlice) == 0 {
 			if err := s.createOptimizedAgents(); err != nil {
@@ -222,6 +227,27 @@ func NewSwarmFromConfig(size int, goal core.State, cfg config.Swarm) (*Swarm, er
 	return s, nil
 }
 
+// createCustomAgents creates agents with the custom builder.
+func (s *Swarm) createCustomAgents() error {
+	for i := range s.size {
+		id := fmt.Sprintf("agent-%d", i)
+		a := s.agentBuilder(id, s.size, s.config)
+		if a == nil {
+			return fmt.Errorf("agent builder returned no agent for %s", id)
+		}
+		if _, exists := s.Agent(a.ID); exists {
+			return fmt.Errorf("agent builder returned a second agent with ID %q", a.ID)
+		}
+		if s.optimized {
+			s.agentIndex[a.ID] = len(s.agentSlice)
+			s.agentSlice = append(s.agentSlice, a)
+		} else {
+			s.agents.Store(a.ID, a)
+		}
+	}
+	return nil
+}
+
 // createDefaultAgents creates agents with config-based settings for standard storage.
 func (s *Swarm) createDefaultAgents() error {
 	agentConfig := config.AgentFromSwarm(s.config)
@@ -304,17 +330,11 @@ func WithMonitor(monitor *monitoring.Monitor) Option {
 }
 
 // WithAgentBuilder uses a custom function to create agents.
+// Agents are created once all options are applied, so that the builder sees
+// the configuration the swarm ends up with.
 func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *agent.Agent) Option {
 	return func(s *Swarm) error {
-		for i := range s.size {
-			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
-			if s.optimized {
-				s.agentIndex[a.ID] = len(s.agentSlice)
-				s.agentSlice = append(s.agentSlice, a)
-			} else {
-				s.agents.Store(a.ID, a)
-			}
-		}
+		s.agentBuilder = builder
 		return nil
 	}
 }
-- 
2.43.0


From 4af465beb34d16b3243688b3cd2efacd995267e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 54/54] fix: refuse an update interval that is not positive

---
 simulations/emerge/ui/runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulations/emerge/ui/runner.go b/simulations/emerge/ui/runner.go
index 8707b67..550d2bf 100644
--- a/simulations/emerge/ui/runner.go
+++ b/simulations/emerge/ui/runner.go
@@ -51,6 +51,10 @@ func NewRunner(config RunnerConfig, sim *simulation.Simulation, disp display.Dis
 
 // Run runs the simulation with display
 func (c *Runner) Run(ctx context.Context) *RunResult {
+	if c.config.UpdateInterval <= 0 {
+		return &RunResult{Error: fmt.Errorf("update interval must be positive, got %v", c.config.UpdateInterval)}
+	}
+
 	// Create cancellable context
 	appCtx, appCancel := context.WithCancel(ctx)
 	defer appCancel()
-- 
2.43.0

