From edd079361d44c9de939cc9b3701a0b73c8a7331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 01/44] fix: let parallel branches that reach the same task
 share its one run

Two branches of a parallel block that ran the same task failed with a
spurious circular dependency, depending on the schedule.
---
 internal/runner/parallel.go | 76 +++++++++++++++++++++++++++++++++++++
 internal/runner/runner.go   |  9 ++++-
 2 files changed, 84 insertions(+), 1 deletion(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..21c34cb 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -34,6 +34,78 @@ func pathToKey(path []int) string {
 type syncState struct {
 	mu    sync.Mutex
 	state map[string]status
+	calls map[string]map[string]bool
+	runs  map[string]*taskRun
+}
+
+// taskRun is the single execution of a task that concurrent callers share.
+type taskRun struct {
+	finished chan struct{}
+	err      error
+}
+
+type callerKey struct{}
+
+func callerOf(ctx context.Context) string {
+	name, _ := ctx.Value(callerKey{}).(string)
+	return name
+}
+
+// link records that caller runs callee. The recorded calls tell a task that
+// waits for itself from one that is merely running in another branch.
+func (s *syncState) link(caller, callee string) {
+	if caller == "" {
+		return
+	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.calls == nil {
+		s.calls = make(map[string]map[string]bool)
+	}
+	if s.calls[caller] == nil {
+		s.calls[caller] = make(map[string]bool)
+	}
+	s.calls[caller][callee] = true
+}
+
+func (s *syncState) reaches(from, to string, seen map[string]bool) bool {
+	if from == to {
+		return true
+	}
+	seen[from] = true
+	for next := range s.calls[from] {
+		if !seen[next] && s.reaches(next, to, seen) {
+			return true
+		}
+	}
+	return false
+}
+
+func (s *syncState) finish(name string, err error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if run := s.runs[name]; run != nil {
+		run.err = err
+		close(run.finished)
+	}
+}
+
+// wait blocks until the running task name has finished and returns its result.
+// It reports false when the caller is itself part of that run: a real cycle.
+func (s *syncState) wait(ctx context.Context, name string) (bool, error) {
+	s.mu.Lock()
+	run := s.runs[name]
+	cycle := run == nil || s.reaches(name, callerOf(ctx), make(map[string]bool))
+	s.mu.Unlock()
+	if cycle {
+		return false, nil
+	}
+	select {
+	case <-run.finished:
+		return true, run.err
+	case <-ctx.Done():
+		return true, ctx.Err()
+	}
 }
 
 func (s *syncState) get(name string) status {
@@ -54,6 +126,10 @@ func (s *syncState) claim(name string) status {
 	current := s.state[name]
 	if current == 0 {
 		s.state[name] = running
+		if s.runs == nil {
+			s.runs = make(map[string]*taskRun)
+		}
+		s.runs[name] = &taskRun{finished: make(chan struct{})}
 	}
 	return current
 }
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..9ab7498 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -132,17 +132,24 @@ func firstNonNil(vals ...*bool) *bool {
 	return nil
 }
 
-func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
+func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) (err error) {
+	state.link(callerOf(ctx), name)
 	switch state.claim(name) {
 	case done:
 		return nil
 	case running:
+		if waited, err := state.wait(ctx, name); waited {
+			return err
+		}
 		return &errs.CircularDepError{
 			Type:  "dependency",
 			Chain: buildChainSlice(name, tasks, state.snapshot()),
 		}
 	}
 
+	defer func() { state.finish(name, err) }()
+	ctx = context.WithValue(ctx, callerKey{}, name)
+
 	task, ok := tasks[name]
 	if !ok {
 		available := tasks.Names()
-- 
2.43.0


From 631f3c3228e3e579238a2e64be379ea0a1f5a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 02/44] fix: honour platforms and when on the items of a
 parallel block

---
 internal/runner/parallel.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 21c34cb..e46360b 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"strconv"
 	"strings"
 	"sync"
@@ -144,7 +145,39 @@ func (s *syncState) snapshot() map[string]status {
 	return cp
 }
 
+// selectParallelItems drops the items that do not run on this platform or
+// whose when condition does not hold.
+func (r *Runner) selectParallelItems(pr babfile.ParallelRun, taskVars map[string]string, taskName string) (babfile.ParallelRun, error) {
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", taskName, "index", i+1, "reason", "platform")
+			continue
+		}
+		shouldSkip, err := r.shouldSkipRunItem(item, taskVars, taskName, i+1)
+		if err != nil {
+			return pr, err
+		}
+		if shouldSkip {
+			continue
+		}
+		items = append(items, item)
+		labels = append(labels, pr.ItemLabel(i))
+	}
+	pr.Items, pr.Labels = items, labels
+	return pr, nil
+}
+
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
+	pr, err := r.selectParallelItems(pr, taskVars, task.Name)
+	if err != nil {
+		return err
+	}
+	if len(pr.Items) == 0 {
+		return nil
+	}
+
 	labels := make([]string, len(pr.Items))
 	maxLabelLen := 0
 	for i := range pr.Items {
-- 
2.43.0


From 3790163eedc386d0ebf9328c28b5fea980027346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 03/44] fix: let a task's when condition see the task's
 variables

An included task's when could not use the variables of its own Babfile.
---
 internal/runner/runner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 9ab7498..6442b2e 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -163,7 +163,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	}
 
 	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+		if err != nil {
+			return err
+		}
+		whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
 		result, err := condition.Evaluate(task.When, whenCtx)
 		if err != nil {
 			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From 09e6a2f9c20534b2c3423ff3b25f14852d95a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 04/44] fix: do not run the dependencies of a parallel task
 whose when is false

---
 internal/runner/parallel.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index e46360b..c9010ac 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -12,6 +12,7 @@ import (
 
 	tea "charm.land/bubbletea/v2"
 	"github.com/bab-sh/bab/internal/babfile"
+	"github.com/bab-sh/bab/internal/condition"
 	"github.com/bab-sh/bab/internal/interpolate"
 	"github.com/bab-sh/bab/internal/output"
 	"github.com/bab-sh/bab/internal/tui"
@@ -439,6 +440,20 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 	}
 }
 
+// skippedByWhen reports whether the task will not run its dependencies: its
+// when condition does not hold, or cannot be evaluated and fails the item.
+func (r *Runner) skippedByWhen(task *babfile.Task) bool {
+	if task.When == "" {
+		return false
+	}
+	whenVars, err := interpolate.ResolveVars(task.Vars, r.GlobalVars)
+	if err != nil {
+		return true
+	}
+	result, err := condition.Evaluate(task.When, interpolate.NewContext(whenVars))
+	return err != nil || !result.ShouldRun
+}
+
 func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	seen := make(map[string]bool)
 	for _, item := range items {
@@ -450,6 +465,9 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if r.skippedByWhen(task) {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
-- 
2.43.0


From 93c4da994570f834e6e6be4b1c7c8118e55da172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 05/44] fix: interpolate global and task env values only once

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 6442b2e..c4c49f3 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -314,10 +314,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	cmdEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv = babfile.MergeEnvMaps(taskEnv, cmdEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 4778434c8398b739ff32a33277531cee0dfe56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 06/44] fix: keep prompt answers out of the global variables

A task without vars shared the map of global variables, so its prompt
answers leaked into every other task.
---
 internal/interpolate/interpolate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..2de1308 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -97,7 +97,11 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		if parentVars == nil {
 			return make(map[string]string), nil
 		}
-		return parentVars, nil
+		copied := make(map[string]string, len(parentVars))
+		for k, v := range parentVars {
+			copied[k] = v
+		}
+		return copied, nil
 	}
 
 	resolved := make(map[string]string)
-- 
2.43.0


From e7034d2c78f58887001a304a18ac917e6b32787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 07/44] fix: do not take an escaped reference for a variable
 dependency

---
 internal/interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 2de1308..3e46d0b 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -150,7 +150,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		matches := Pattern.FindAllStringSubmatch(EscapePattern.ReplaceAllString(raw, escapePlaceholder), -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From db7ddbf0c72dc4a9dd5cdafb21ae7e73ef2ee28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 08/44] fix: keep silent and output of a parallel block when it
 is included

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From 3127fd92a36308f0d204b3b8692e0a26a0226722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 09/44] fix: compare the operands of a when condition, not its
 expanded text

An empty value made the comparison a truthy text, so a task guarded by
${{ var }} == 'value' ran when var was empty.
---
 internal/condition/condition.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..c4b8ebc 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,6 +23,12 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
+	if result, ok, err := evaluateTemplate(strings.TrimSpace(condition), ctx); err != nil {
+		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+	} else if ok {
+		return result, nil
+	}
+
 	interpolated, err := interpolate.Interpolate(condition, ctx)
 	if err != nil {
 		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
@@ -37,6 +43,27 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 	return evaluateTruthy(interpolated), nil
 }
 
+// evaluateTemplate finds the comparison in the condition as written, so that an
+// empty value, a line break, a quote or an operator in a value cannot change it.
+func evaluateTemplate(s string, ctx *interpolate.Context) (Result, bool, error) {
+	matches := comparisonPatternSQ.FindStringSubmatch(s)
+	if len(matches) != 4 {
+		matches = comparisonPatternDQ.FindStringSubmatch(s)
+	}
+	if len(matches) != 4 {
+		return Result{}, false, nil
+	}
+	left, err := interpolate.Interpolate(strings.Trim(strings.TrimSpace(matches[1]), "'\""), ctx)
+	if err != nil {
+		return Result{}, false, err
+	}
+	right, err := interpolate.Interpolate(matches[3], ctx)
+	if err != nil {
+		return Result{}, false, err
+	}
+	return evaluateOp(strings.TrimSpace(left), matches[2], right), true, nil
+}
+
 func evaluateComparison(s string) (Result, bool) {
 	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
 		left := strings.TrimSpace(matches[1])
-- 
2.43.0


From 4ca6af2d9e0222db095c2c5160528afdf9d1413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 10/44] fix: run included tasks in their own Babfile's
 directory by default

A dir of the including Babfile was applied to included tasks, relative to
the included Babfile.
---
 internal/parser/include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..d71de31 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -35,6 +35,9 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		if taskDir == "" {
 			taskDir = result.GlobalDir
 		}
+		if taskDir == "" {
+			taskDir = "."
+		}
 
 		taskSilent := task.Silent
 		if taskSilent == nil {
-- 
2.43.0


From 48305f4cbe548664167aaaa040ed676aa0e21a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 11/44] fix: keep lines that end in CRLF in parallel output

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..baf16b2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From 53a4d1585e1c21411e726a46df63cd7dc60ad331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 12/44] fix: do not take a directory for a Babfile

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From f3bf8bbcfb1800cffadb42bb4d367bb588db75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 13/44] fix: report cancellation when a parallel item was still
 waiting for its turn

---
 internal/runner/parallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index c9010ac..abfae23 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -252,6 +252,7 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 				select {
 				case sem <- struct{}{}:
 				case <-ctx.Done():
+					firstErrOnce.Do(func() { firstErr = ctx.Err() })
 					return
 				}
 				defer func() { <-sem }()
@@ -350,6 +351,7 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 				case sem <- struct{}{}:
 				case <-ctx.Done():
 					itemErrs[idx] = context.Canceled
+					firstErrOnce.Do(func() { firstErr = ctx.Err() })
 
 					program.Send(tui.ItemDoneMsg{Key: childKey, Err: context.Canceled})
 					return
-- 
2.43.0


From 53b745782873a6a2e441001ba72592b2c3317216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 14/44] fix: report only real cycles, with their own chain

Chains of several reported cycles shared memory, and a cycle left its task
on the stack, so that later tasks leading to it were reported as cycles.
---
 internal/parser/validate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..368a975 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -115,7 +117,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: slices.Clone(chain),
 					})
 					return
 				}
@@ -145,8 +147,9 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: slices.Clone(chain),
 				})
+				recStack[name] = false
 				return
 			}
 			if !visited[dep] && tasks.Has(dep) {
-- 
2.43.0


From b9bff9011ce856f69062ab0eebb57169147704a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 15/44] fix: locate errors of included tasks in the included
 Babfile

---
 internal/parser/validate.go | 11 +++++++++++
 internal/runner/runner.go   |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 368a975..371947a 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -16,6 +16,14 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+// sourceOf is the file whose line numbers the task has.
+func sourceOf(task *babfile.Task, path string) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return path
+}
+
 func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
@@ -24,6 +32,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 	aliasToTask := make(map[string]aliasInfo)
 
 	for name, task := range tasks {
+		path := sourceOf(task, path)
 		for _, alias := range task.GetAllAliases() {
 			if alias == "" {
 				continue
@@ -58,6 +67,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
+		path := sourceOf(task, path)
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
 				line := task.DepsLine
@@ -78,6 +88,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
+		path := sourceOf(task, path)
 		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
 	}
 }
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index c4c49f3..f9479ce 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -162,6 +162,12 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
+	if task.SourcePath != "" && task.SourcePath != r.BabfilePath {
+		located := *r
+		located.BabfilePath = task.SourcePath
+		r = &located
+	}
+
 	if task.When != "" {
 		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
 		if err != nil {
-- 
2.43.0


From d3ea2f445995f021c4743e46fffc52fa9dcbbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 16/44] fix: read YAML aliases of scalars as the value they
 stand for

---
 internal/parser/unmarshal.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..ce0c166 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -152,6 +152,8 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
 	}
 
+	resolveScalarAliases(doc)
+
 	schema := &babfile.Schema{
 		Vars:     make(babfile.VarMap),
 		Env:      make(map[string]string),
@@ -194,6 +196,21 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	return schema, nil
 }
 
+// resolveScalarAliases replaces every alias of a scalar by the scalar it stands
+// for: the value of an alias node itself is the name of its anchor.
+func resolveScalarAliases(node *yaml.Node) {
+	for i, child := range node.Content {
+		if child.Kind == yaml.AliasNode && child.Alias.Kind == yaml.ScalarNode {
+			scalar := *child.Alias
+			scalar.Anchor = ""
+			scalar.Line, scalar.Column = child.Line, child.Column
+			node.Content[i] = &scalar
+			continue
+		}
+		resolveScalarAliases(child)
+	}
+}
+
 func parseTasks(path string, node *yaml.Node, schema *babfile.Schema, verrs *errs.ValidationErrors) {
 	if node.Kind != yaml.MappingNode {
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: "tasks must be a mapping"})
-- 
2.43.0


From 9f984ad9fbdd3e46972fbcea17df3a41c09f8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 17/44] fix: reject a when condition that is not a string

It was read as no condition, and the guarded commands ran.
---
 internal/parser/unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index ce0c166..37e2cf8 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -291,6 +291,10 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 				task.Dir = val.Value
 			}
 		case keyWhen:
+			if val.Kind != yaml.ScalarNode {
+				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: when must be a string", taskName)})
+				hasErrors = true
+			}
 			task.When = val.Value
 		case keyDeps:
 			task.DepsLine = key.Line
@@ -461,6 +465,10 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.dir = val.Value
 			}
 		case keyWhen:
+			if val.Kind != yaml.ScalarNode {
+				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: when must be a string", taskName, index)})
+				rf.hasErrors = true
+			}
 			rf.when = val.Value
 		case keyTask:
 			rf.task = val.Value
@@ -548,6 +556,10 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
+		if val.Kind != yaml.ScalarNode {
+			verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: when must be a string", prefix)})
+			return false
+		}
 		pf.when = val.Value
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
-- 
2.43.0


From 2d9ab1432a0e4252eefbeabd0b0b4435c3b64478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 18/44] fix: answer a number prompt left empty with its default

---
 internal/tui/prompt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..3e2e2f8 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -287,5 +287,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
+
 	return result, nil
 }
-- 
2.43.0


From 0e42dcdc73bd386d4478fff7f14d08280716980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 19/44] fix: let a dry run preview the commands that use a
 prompt's answer

---
 internal/runner/runner.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index f9479ce..543de52 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -267,6 +267,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				taskVars[v.Prompt] = previewAnswer(interpolated)
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
@@ -426,6 +427,19 @@ func interpolatePrompt(p babfile.PromptRun, ctx *interpolate.Context) (babfile.P
 	return p, nil
 }
 
+// previewAnswer stands for the answer to a prompt in a dry run: its default, or
+// else the reference itself.
+func previewAnswer(p babfile.PromptRun) string {
+	switch {
+	case p.Default != "":
+		return p.Default
+	case len(p.Defaults) > 0:
+		return strings.Join(p.Defaults, ",")
+	default:
+		return "${{ " + p.Prompt + " }}"
+	}
+}
+
 func (r *Runner) interpolateEnv(env map[string]string, ctx *interpolate.Context) (map[string]string, error) {
 	if len(env) == 0 {
 		return env, nil
-- 
2.43.0


From 3e86edfcea9938e4fe7ec2320eb88f39715f32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 20/44] fix: label a parallel item with the first line of its
 command

A line break in the label split every prefixed line of output.
---
 internal/babfile/run_parallel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/babfile/run_parallel.go b/internal/babfile/run_parallel.go
index 54cdb23..23bb599 100644
--- a/internal/babfile/run_parallel.go
+++ b/internal/babfile/run_parallel.go
@@ -2,6 +2,7 @@ package babfile
 
 import (
 	"encoding/json"
+	"strings"
 
 	"github.com/invopop/jsonschema"
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -75,6 +76,10 @@ func (p ParallelRun) ItemLabel(index int) string {
 }
 
 func truncateRunes(s string, max int) string {
+	s = strings.TrimSpace(s)
+	if i := strings.IndexAny(s, "\r\n"); i >= 0 {
+		s = s[:i]
+	}
 	r := []rune(s)
 	if len(r) > max {
 		return string(r[:max])
-- 
2.43.0


From bb76b54c15adfc5f7dc24c7cd07b50fcaa9e9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 21/44] fix: preview a confirm prompt with the answer its
 default stands for

---
 internal/runner/runner.go | 10 +++-------
 internal/tui/prompt.go    |  6 ++++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 543de52..7635c60 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -430,14 +430,10 @@ func interpolatePrompt(p babfile.PromptRun, ctx *interpolate.Context) (babfile.P
 // previewAnswer stands for the answer to a prompt in a dry run: its default, or
 // else the reference itself.
 func previewAnswer(p babfile.PromptRun) string {
-	switch {
-	case p.Default != "":
-		return p.Default
-	case len(p.Defaults) > 0:
-		return strings.Join(p.Defaults, ",")
-	default:
-		return "${{ " + p.Prompt + " }}"
+	if answer, ok := tui.DefaultAnswer(p); ok {
+		return answer
 	}
+	return "${{ " + p.Prompt + " }}"
 }
 
 func (r *Runner) interpolateEnv(env map[string]string, ctx *interpolate.Context) (map[string]string, error) {
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 3e2e2f8..352e76a 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -71,6 +71,12 @@ func handleNonInteractive(p babfile.PromptRun) (string, error) {
 	}
 }
 
+// DefaultAnswer is the answer to a prompt that nobody is asked.
+func DefaultAnswer(p babfile.PromptRun) (string, bool) {
+	answer, err := handleNonInteractive(p)
+	return answer, err == nil
+}
+
 func normalizeConfirmDefault(s string) string {
 	lower := strings.ToLower(s)
 	switch lower {
-- 
2.43.0


From b5653c68ded89409228a487eac48afb8110d97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 22/44] fix: show the items of a parallel block in a dry run

---
 internal/runner/runner.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 7635c60..d228984 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -280,6 +280,9 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 		case babfile.ParallelRun:
 			if r.DryRun {
 				log.Info("Would run parallel", "items", len(v.Items), "mode", v.Mode)
+				if err := r.previewParallel(ctx, v, task, tasks, state, taskVars, taskEnv); err != nil {
+					return err
+				}
 			} else {
 				parallelVars := make(map[string]string, len(taskVars))
 				for k, val := range taskVars {
@@ -310,6 +313,20 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	return nil
 }
 
+// previewParallel shows the items of a parallel block that would run.
+func (r *Runner) previewParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars, taskEnv map[string]string) error {
+	selected, err := r.selectParallelItems(pr, taskVars, task.Name)
+	if err != nil {
+		return err
+	}
+	for _, item := range selected.Items {
+		if err := r.executeRunItem(ctx, item, task, tasks, state, taskVars, taskEnv, nil, nil, nil, nil, false, nil); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task *babfile.Task, shell, shellArg string, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool) error {
 	if strings.TrimSpace(v.Cmd) == "" {
 		return fmt.Errorf("task %q has an empty command", task.Name)
-- 
2.43.0


From 380ac2be704cbef2b9878ee9637744948abdd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 23/44] fix: take a value in a when condition as a whole, never
 as a condition

---
 internal/condition/condition.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index c4b8ebc..7c5e285 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -36,10 +36,6 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 
 	interpolated = strings.TrimSpace(interpolated)
 
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
-	}
-
 	return evaluateTruthy(interpolated), nil
 }
 
@@ -61,7 +57,7 @@ func evaluateTemplate(s string, ctx *interpolate.Context) (Result, bool, error)
 	if err != nil {
 		return Result{}, false, err
 	}
-	return evaluateOp(strings.TrimSpace(left), matches[2], right), true, nil
+	return evaluateOp(left, matches[2], right), true, nil
 }
 
 func evaluateComparison(s string) (Result, bool) {
-- 
2.43.0


From b80cbbf7c2b632361f3cc91e53a5c71cdcbc755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 24/44] fix: resolve an included file's variables before the
 task's own

---
 internal/babfile/task.go    | 10 ++++++++++
 internal/parser/include.go  |  1 +
 internal/runner/parallel.go |  2 +-
 internal/runner/runner.go   | 17 +++++++++++++++--
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/babfile/task.go b/internal/babfile/task.go
index 2bcc22a..ec32948 100644
--- a/internal/babfile/task.go
+++ b/internal/babfile/task.go
@@ -15,6 +15,7 @@ type Task struct {
 	Desc       string            `json:"desc,omitempty" yaml:"desc,omitempty"`
 	Alias      string            `json:"alias,omitempty" yaml:"alias,omitempty"`
 	Aliases    []string          `json:"aliases,omitempty" yaml:"aliases,omitempty"`
+	Scopes     []VarMap          `json:"-" yaml:"-"`
 	Vars       VarMap            `json:"vars,omitempty" yaml:"vars,omitempty"`
 	Env        map[string]string `json:"env,omitempty" yaml:"env,omitempty"`
 	Silent     *bool             `json:"silent,omitempty" yaml:"silent,omitempty"`
@@ -36,6 +37,15 @@ func (t *Task) GetAllAliases() []string {
 	return append(aliases, t.Aliases...)
 }
 
+// VarScopes lists the variables of the task level by level: those of the files
+// it was included through, outermost first, then its own.
+func (t *Task) VarScopes() []VarMap {
+	if t.Scopes == nil {
+		return []VarMap{t.Vars}
+	}
+	return t.Scopes
+}
+
 type TaskMap map[string]*Task
 
 func (tm TaskMap) Has(name string) bool {
diff --git a/internal/parser/include.go b/internal/parser/include.go
index d71de31..1db6898 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -58,6 +58,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 			Alias:      prefixAlias(task.Alias, namespace),
 			Aliases:    prefixAliases(task.Aliases, namespace),
 			Vars:       taskVars,
+			Scopes:     append([]babfile.VarMap{result.GlobalVars}, task.VarScopes()...),
 			Env:        taskEnv,
 			Silent:     taskSilent,
 			Output:     taskOutput,
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index abfae23..97d3f58 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -448,7 +448,7 @@ func (r *Runner) skippedByWhen(task *babfile.Task) bool {
 	if task.When == "" {
 		return false
 	}
-	whenVars, err := interpolate.ResolveVars(task.Vars, r.GlobalVars)
+	whenVars, err := r.resolveTaskVars(task, "", 0)
 	if err != nil {
 		return true
 	}
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index d228984..30a2db2 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -169,7 +169,7 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	}
 
 	if task.When != "" {
-		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+		whenVars, err := r.resolveTaskVars(task, r.BabfilePath, task.Line)
 		if err != nil {
 			return err
 		}
@@ -218,12 +218,25 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	return nil
 }
 
+// resolveTaskVars resolves each level of a task's variables over the one above.
+func (r *Runner) resolveTaskVars(task *babfile.Task, path string, line int) (map[string]string, error) {
+	vars := r.GlobalVars
+	for _, scope := range task.VarScopes() {
+		resolved, err := interpolate.ResolveVarsWithLocation(scope, vars, path, line)
+		if err != nil {
+			return nil, err
+		}
+		vars = resolved
+	}
+	return vars, nil
+}
+
 func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	platform := runtime.GOOS
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := r.resolveTaskVars(task, r.BabfilePath, task.Line)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8dbcfc75ab867e7c44076c1de0e02fca9a4ed379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 25/44] fix: read YAML aliases of lists and mappings, too

---
 internal/parser/unmarshal.go | 59 ++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 37e2cf8..a4e33bc 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -152,7 +152,9 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
 	}
 
-	resolveScalarAliases(doc)
+	if err := resolveAliases(path, doc); err != nil {
+		return nil, err
+	}
 
 	schema := &babfile.Schema{
 		Vars:     make(babfile.VarMap),
@@ -196,19 +198,52 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	return schema, nil
 }
 
-// resolveScalarAliases replaces every alias of a scalar by the scalar it stands
-// for: the value of an alias node itself is the name of its anchor.
-func resolveScalarAliases(node *yaml.Node) {
-	for i, child := range node.Content {
-		if child.Kind == yaml.AliasNode && child.Alias.Kind == yaml.ScalarNode {
-			scalar := *child.Alias
-			scalar.Anchor = ""
-			scalar.Line, scalar.Column = child.Line, child.Column
-			node.Content[i] = &scalar
-			continue
+// maxNodes bounds what a Babfile may expand to through its aliases.
+const maxNodes = 1_000_000
+
+// resolveAliases replaces every alias by what it stands for: the value of an
+// alias node itself is the name of its anchor. An anchored value cannot contain
+// an alias of itself, and nested aliases must not grow out of all proportion.
+func resolveAliases(path string, root *yaml.Node) error {
+	sizes := make(map[*yaml.Node]int)
+	open := make(map[*yaml.Node]bool)
+
+	var resolve func(node *yaml.Node) (int, error)
+	resolve = func(node *yaml.Node) (int, error) {
+		if size, done := sizes[node]; done {
+			return size, nil
+		}
+		open[node] = true
+		size := 1
+		for i, child := range node.Content {
+			if child.Kind == yaml.AliasNode {
+				target := child.Alias
+				if open[target] {
+					return 0, &errs.ParseError{Path: path, Line: child.Line, Message: fmt.Sprintf("anchor %q contains itself", child.Value)}
+				}
+				if target.Kind == yaml.ScalarNode {
+					scalar := *target
+					scalar.Line, scalar.Column = child.Line, child.Column
+					target = &scalar
+				}
+				node.Content[i] = target
+				child = target
+			}
+			n, err := resolve(child)
+			if err != nil {
+				return 0, err
+			}
+			if size += n; size > maxNodes {
+				return 0, &errs.ParseError{Path: path, Line: child.Line, Message: "document contains excessive aliasing"}
+			}
 		}
-		resolveScalarAliases(child)
+		delete(open, node)
+		sizes[node] = size
+		return size, nil
 	}
+
+	_, err := resolve(root)
+	return err
 }
 
 func parseTasks(path string, node *yaml.Node, schema *babfile.Schema, verrs *errs.ValidationErrors) {
-- 
2.43.0


From 7d3bafbbeb73362db1376a44283f82619339c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 26/44] fix: reject a list or mapping where a text is needed

---
 internal/parser/unmarshal.go | 55 ++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index a4e33bc..8bb16f2 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,16 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// parseText reads a field whose value has to be a single text.
+func parseText(path string, key, node *yaml.Node, prefix string, target *string, verrs *errs.ValidationErrors) bool {
+	if node.Kind != yaml.ScalarNode {
+		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("%s: %s must be a string", prefix, key.Value)})
+		return false
+	}
+	*target = node.Value
+	return true
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -294,9 +304,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 
 		switch key.Value {
 		case keyDesc:
-			task.Desc = val.Value
+			if !parseText(path, key, val, fmt.Sprintf("task %q", taskName), &task.Desc, verrs) {
+				hasErrors = true
+			}
 		case keyAlias:
-			task.Alias = val.Value
+			if !parseText(path, key, val, fmt.Sprintf("task %q", taskName), &task.Alias, verrs) {
+				hasErrors = true
+			}
 		case keyAliases:
 			if err := val.Decode(&task.Aliases); err != nil {
 				verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: invalid aliases", taskName), Cause: err})
@@ -371,19 +385,21 @@ func parseRunItems(path string, node *yaml.Node, taskName string, verrs *errs.Va
 }
 
 func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string, index int, verrs *errs.ValidationErrors) bool {
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
+
 	switch key.Value {
 	case keyPrompt:
-		pf.name = val.Value
+		return parseText(path, key, val, prefix, &pf.name, verrs)
 	case keyType:
-		pf.promptType = val.Value
+		return parseText(path, key, val, prefix, &pf.promptType, verrs)
 	case keyMessage:
-		pf.message = val.Value
+		return parseText(path, key, val, prefix, &pf.message, verrs)
 	case keyDefault:
-		pf.dflt = val.Value
+		return parseText(path, key, val, prefix, &pf.dflt, verrs)
 	case keyPlaceholder:
-		pf.placeholder = val.Value
+		return parseText(path, key, val, prefix, &pf.placeholder, verrs)
 	case keyValidate:
-		pf.validate = val.Value
+		return parseText(path, key, val, prefix, &pf.validate, verrs)
 	case keyOptions:
 		if err := val.Decode(&pf.options); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid options", taskName, index), Cause: err})
@@ -453,6 +469,8 @@ func parseRunItem(path string, node *yaml.Node, taskName string, index int, verr
 	case count > 1:
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("task %q: run[%d]: run item can only have one of 'cmd', 'task', 'log', or 'prompt'", taskName, index)})
 		return nil, false
+	case count == 0 && rf.hasErrors:
+		return nil, false
 	case count == 0:
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("task %q: run[%d]: run item must have 'cmd', 'task', 'log', 'prompt', or 'parallel'", taskName, index)})
 		return nil, false
@@ -484,6 +502,7 @@ type runFields struct {
 
 func parseRunFields(path string, node *yaml.Node, taskName string, index int, verrs *errs.ValidationErrors) runFields {
 	rf := runFields{line: node.Line}
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
 
 	for i := 0; i < len(node.Content); i += 2 {
 		key := node.Content[i]
@@ -491,7 +510,9 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 
 		switch key.Value {
 		case keyCmd:
-			rf.cmd = val.Value
+			if !parseText(path, key, val, prefix, &rf.cmd, verrs) {
+				rf.hasErrors = true
+			}
 		case keyDir:
 			if val.Kind != yaml.ScalarNode {
 				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: dir must be a string", taskName, index)})
@@ -506,11 +527,17 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 			}
 			rf.when = val.Value
 		case keyTask:
-			rf.task = val.Value
+			if !parseText(path, key, val, prefix, &rf.task, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLog:
-			rf.log = val.Value
+			if !parseText(path, key, val, prefix, &rf.log, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLevel:
-			rf.level = babfile.LogLevel(val.Value)
+			if !parseText(path, key, val, prefix, (*string)(&rf.level), verrs) {
+				rf.hasErrors = true
+			}
 		case keyEnv:
 			if !parseEnvMap(path, val, &rf.env, verrs) {
 				rf.hasErrors = true
@@ -530,6 +557,10 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.hasErrors = true
 			}
 		case keyLabel:
+			var label string
+			if !parseText(path, key, val, prefix, &label, verrs) {
+				rf.hasErrors = true
+			}
 		default:
 			if !parsePromptKey(key, val, &rf.pf, path, taskName, index, verrs) {
 				rf.hasErrors = true
-- 
2.43.0


From b36b2e02ff5a2c85c9f3250187a80b9f7c9d03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 27/44] fix: report the include and its real chain when an
 include fails

---
 internal/babfile/include.go  |  1 +
 internal/parser/include.go   |  4 ++--
 internal/parser/parser.go    | 29 +++++++++++++----------------
 internal/parser/unmarshal.go |  1 +
 4 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/internal/babfile/include.go b/internal/babfile/include.go
index 80c632e..fd57fc1 100644
--- a/internal/babfile/include.go
+++ b/internal/babfile/include.go
@@ -6,6 +6,7 @@ import (
 )
 
 type Include struct {
+	Line    int    `json:"-" yaml:"-"`
 	Babfile string `json:"babfile" yaml:"babfile"`
 }
 
diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1db6898..68f28db 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -8,7 +8,7 @@ import (
 	"github.com/charmbracelet/log"
 )
 
-func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, visited map[string]bool) error {
+func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, including []string) error {
 	incPath := babfilePath
 	if !filepath.IsAbs(incPath) {
 		incPath = filepath.Join(baseDir, incPath)
@@ -17,7 +17,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 
 	log.Debug("Resolving include", "namespace", namespace, "path", incPath)
 
-	result, err := parseFile(incPath, visited)
+	result, err := parseFile(incPath, including)
 	if err != nil {
 		return err
 	}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..97dc226 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -33,8 +33,7 @@ func Parse(path string) (*ParseResult, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid path", Cause: err}
 	}
 
-	visited := make(map[string]bool)
-	result, err := parseFile(absPath, visited)
+	result, err := parseFile(absPath, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -46,15 +45,15 @@ func Parse(path string) (*ParseResult, error) {
 	return result, nil
 }
 
-func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
+// parseFile reads a Babfile; including are the files being read that lead to it,
+// each of which includes the next.
+func parseFile(absPath string, including []string) (*ParseResult, error) {
 	log.Debug("Parsing babfile", "path", absPath)
 
-	if visited[absPath] {
-		chain := chainFromVisited(visited, absPath)
-		return nil, &errs.CircularDepError{Path: absPath, Type: "include", Chain: chain}
+	if first := slices.Index(including, absPath); first >= 0 {
+		return nil, &errs.CircularDepError{Path: absPath, Type: "include", Chain: includeChain(including[first:], absPath)}
 	}
-	visited[absPath] = true
-	defer delete(visited, absPath)
+	including = append(slices.Clone(including), absPath)
 
 	data, err := os.ReadFile(absPath)
 	if err != nil {
@@ -95,8 +94,8 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 
 	baseDir := filepath.Dir(absPath)
 	for namespace, inc := range bf.Includes {
-		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited); err != nil {
-			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
+		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, including); err != nil {
+			return nil, &errs.ParseError{Path: absPath, Line: inc.Line, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
 
@@ -125,12 +124,10 @@ func buildAliasMap(tasks babfile.TaskMap) map[string]string {
 	return aliases
 }
 
-func chainFromVisited(visited map[string]bool, current string) []string {
-	chain := make([]string, 0, len(visited)+1)
-	for path := range visited {
-		chain = append(chain, filepath.Base(path))
+func includeChain(files []string, back string) []string {
+	chain := make([]string, 0, len(files)+1)
+	for _, path := range append(slices.Clone(files), back) {
+		chain = append(chain, errs.RelativePath(path))
 	}
-	slices.Sort(chain)
-	chain = append(chain, filepath.Base(current))
 	return chain
 }
diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 8bb16f2..c9d55f0 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -928,6 +928,7 @@ func parseIncludes(path string, node *yaml.Node, schema *babfile.Schema, verrs *
 			verrs.Add(&errs.ParseError{Path: path, Line: nameNode.Line, Message: fmt.Sprintf("include %q", nameNode.Value), Cause: err})
 			continue
 		}
+		inc.Line = nameNode.Line
 		schema.Includes[nameNode.Value] = inc
 	}
 }
-- 
2.43.0


From b24353e590bd915612a8d6664f7b95cfcdcbb7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 28/44] fix: start a reported cycle on the cycle

---
 internal/interpolate/interpolate.go | 6 +++---
 internal/parser/validate.go         | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 3e46d0b..17f4b3d 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -3,6 +3,7 @@ package interpolate
 import (
 	"os"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/errs"
@@ -133,9 +134,8 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		}
 
 		if resolving[name] {
-			chain := make([]string, len(resolvingStack)+1)
-			copy(chain, resolvingStack)
-			chain[len(resolvingStack)] = name
+			chain := slices.Clone(resolvingStack[slices.Index(resolvingStack, name):])
+			chain = append(chain, name)
 			return "", &errs.VarCycleError{Path: path, Line: line, Name: name, Chain: chain}
 		}
 
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 371947a..d5bce77 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -112,6 +112,11 @@ func validateRunItemTaskRefs(path, referencedBy string, items []babfile.RunItem,
 	}
 }
 
+// cycleIn leaves out the tasks that only lead to the cycle that ends the chain.
+func cycleIn(chain []string) []string {
+	return chain[slices.Index(chain, chain[len(chain)-1]):]
+}
+
 func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	visited := make(map[string]bool)
 	recStack := make(map[string]bool)
@@ -128,7 +133,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: slices.Clone(chain),
+						Chain: slices.Clone(cycleIn(chain)),
 					})
 					return
 				}
@@ -158,7 +163,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: slices.Clone(chain),
+					Chain: slices.Clone(cycleIn(chain)),
 				})
 				recStack[name] = false
 				return
-- 
2.43.0


From df674f37950126d3e165fca237ea45d68bd5075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 29/44] fix: reject a fraction where a whole number is needed

---
 internal/parser/unmarshal.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index c9d55f0..d3bfaa0 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,22 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// decodeInt reads a whole number; a fraction is not cut off, but an error.
+func decodeInt(node *yaml.Node) (int, error) {
+	var v int
+	if err := node.Decode(&v); err != nil {
+		return 0, err
+	}
+	var f float64
+	if err := node.Decode(&f); err != nil {
+		return 0, err
+	}
+	if f != float64(v) {
+		return 0, fmt.Errorf("%q is not a whole number", node.Value)
+	}
+	return v, nil
+}
+
 // parseText reads a field whose value has to be a single text.
 func parseText(path string, key, node *yaml.Node, prefix string, target *string, verrs *errs.ValidationErrors) bool {
 	if node.Kind != yaml.ScalarNode {
@@ -411,15 +427,15 @@ func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string
 			return false
 		}
 	case keyMin:
-		var v int
-		if err := val.Decode(&v); err != nil {
+		v, err := decodeInt(val)
+		if err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid min value", taskName, index), Cause: err})
 			return false
 		}
 		pf.min = &v
 	case keyMax:
-		var v int
-		if err := val.Decode(&v); err != nil {
+		v, err := decodeInt(val)
+		if err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid max value", taskName, index), Cause: err})
 			return false
 		}
@@ -601,8 +617,8 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 			return false
 		}
 	case keyLimit:
-		var v int
-		if err := val.Decode(&v); err != nil {
+		v, err := decodeInt(val)
+		if err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: invalid limit value", prefix), Cause: err})
 			return false
 		}
-- 
2.43.0


From 55b5d550fe80d5e0659b63adc16e63b7aa0de544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 30/44] fix: pass on nothing but text, colors and styles from
 parallel items

---
 internal/runner/writer.go | 60 ++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index baf16b2..ce5bcf4 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -5,8 +5,11 @@ import (
 	"fmt"
 	"image/color"
 	"io"
+	"regexp"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	tea "charm.land/bubbletea/v2"
 	"charm.land/lipgloss/v2"
@@ -15,57 +18,62 @@ import (
 	"github.com/charmbracelet/x/ansi"
 )
 
+var sgrPattern = regexp.MustCompile(`^\x1b\[[0-9;:]*m$`)
+
 func sanitizeLine(line string) string {
-	if !strings.ContainsRune(line, '\x1b') && !strings.ContainsRune(line, 0x9b) {
-		return stripControlChars(line)
-	}
+	return filterLine(line, false)
+}
+
+// filterLine keeps the text of a line and, unless strip is set, its colors and
+// styles. Whatever else a terminal would act on is dropped.
+func filterLine(line string, strip bool) string {
 	var b strings.Builder
 	b.Grow(len(line))
-	var state byte
-	p := ansi.NewParser()
-	input := line
-	for len(input) > 0 {
-		seq, _, n, newState := ansi.DecodeSequence(input, state, p)
+	for input := line; len(input) > 0; {
+		seq, _, n, _ := ansi.DecodeSequence(input, ansi.NormalState, nil)
 		if n == 0 {
 			break
 		}
-		state = newState
-		if ansi.HasCsiPrefix(seq) {
-			if p.Command()&0xff == 'm' {
+		input = input[n:]
+		switch {
+		case sgrPattern.MatchString(seq):
+			if !strip {
 				b.WriteString(seq)
 			}
-		} else if !ansi.HasOscPrefix(seq) && !ansi.HasEscPrefix(seq) &&
-			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) {
-			b.WriteString(seq)
+		case !isSequence(seq):
+			b.WriteString(stripControlChars(seq))
 		}
-		input = input[n:]
 	}
-	return stripControlChars(b.String())
+	return b.String()
+}
+
+// isSequence reports whether seq is an escape sequence, also in its 8-bit form.
+func isSequence(seq string) bool {
+	return seq[0] == ansi.ESC || seq[0] >= 0x80 && seq[0] < 0xa0
 }
 
 func stripControlChars(s string) string {
-	if !strings.ContainsFunc(s, isUnsafeControl) {
-		return s
-	}
 	var b strings.Builder
 	b.Grow(len(s))
-	for _, r := range s {
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+		if r == utf8.RuneError && n == 1 {
+			r = rune(s[0])
+		}
 		if !isUnsafeControl(r) {
-			b.WriteRune(r)
+			b.WriteString(s[:n])
 		}
+		s = s[n:]
 	}
 	return b.String()
 }
 
 func isUnsafeControl(r rune) bool {
-	return r < 0x20 && r != '\t' && r != '\x1b'
+	return unicode.IsControl(r) && r != '\t'
 }
 
 func cleanLine(line string, strip bool) string {
-	if strip {
-		return ansi.Strip(line)
-	}
-	return sanitizeLine(line)
+	return filterLine(line, strip)
 }
 
 type lineBuffer struct {
-- 
2.43.0


From 26ea9947d34346fb18f4a237ec292a29f1101bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 31/44] fix: the picker puts the task whose name or alias was
 typed in full first

---
 internal/tui/picker/match.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tui/picker/match.go b/internal/tui/picker/match.go
index 560e01e..d647a3f 100644
--- a/internal/tui/picker/match.go
+++ b/internal/tui/picker/match.go
@@ -20,6 +20,7 @@ type Match struct {
 	AliasIndexes []int
 	MatchedAlias string
 	Score        int
+	Exact        bool
 }
 
 func search(query string, tasks []*babfile.Task) []Match {
@@ -60,6 +61,7 @@ func search(query string, tasks []*babfile.Task) []Match {
 				AliasIndexes: aliasIndexes,
 				NameIndexes:  nameMatchMap[i],
 				Score:        score,
+				Exact:        exact || task.Name == query,
 			})
 			matched[i] = true
 		}
@@ -74,11 +76,15 @@ func search(query string, tasks []*babfile.Task) []Match {
 				Task:        task,
 				NameIndexes: nameIndexes,
 				Score:       nameScoreMap[i],
+				Exact:       task.Name == query,
 			})
 		}
 	}
 
 	sort.Slice(results, func(i, j int) bool {
+		if results[i].Exact != results[j].Exact {
+			return results[i].Exact
+		}
 		if results[i].Score != results[j].Score {
 			return results[i].Score > results[j].Score
 		}
-- 
2.43.0


From 50ad464263f6f9c93ba8ffef9bf23889c3629ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 32/44] fix: tabs keep following the output when the window
 shrinks

---
 internal/tui/parallel_tabs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_tabs.go b/internal/tui/parallel_tabs.go
index 5ff535f..bcad0e0 100644
--- a/internal/tui/parallel_tabs.go
+++ b/internal/tui/parallel_tabs.go
@@ -94,12 +94,12 @@ func (m *tabsModel) updateViewport() {
 	if contentHeight < 1 {
 		contentHeight = 1
 	}
+	atBottom := m.viewport.AtBottom()
 	m.viewport.SetWidth(contentWidth)
 	m.viewport.SetHeight(contentHeight)
 
 	content := m.buildContent(activeItem, contentWidth)
 
-	atBottom := m.viewport.AtBottom()
 	m.viewport.SetContent(content)
 	if atBottom {
 		m.viewport.GotoBottom()
-- 
2.43.0


From f7337b8e6d4410e4ed138cfe9588aca0dee135ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 33/44] fix: tabs show nested items as cancelled at once

---
 internal/tui/parallel_tabs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_tabs.go b/internal/tui/parallel_tabs.go
index bcad0e0..3aead2d 100644
--- a/internal/tui/parallel_tabs.go
+++ b/internal/tui/parallel_tabs.go
@@ -32,7 +32,7 @@ func (m *tabsModel) Update(msg tea.Msg) (tea.Model, tea.Cmd) {
 	if handled, cmd := m.handleMsg(msg); handled {
 		switch msg.(type) {
 		case ItemOutputMsg, ItemStartMsg, ItemDoneMsg, ItemRegisterMsg,
-			ItemClearChildrenMsg, tea.WindowSizeMsg:
+			ItemClearChildrenMsg, tea.WindowSizeMsg, tea.KeyPressMsg:
 			m.updateViewport()
 		}
 		return m, cmd
-- 
2.43.0


From 798d3429973e84caf09ae9ef4e1b5519c1d88086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 34/44] fix: a number prompt's limits hold for its default too

---
 internal/tui/prompt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 352e76a..24b1716 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -263,9 +263,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result).
 		Validate(func(s string) error {
 			if s == "" {
-				if p.Default != "" {
-					return nil
-				}
+				s = p.Default
+			}
+			if s == "" {
 				return errors.New("a number is required")
 			}
 			n, err := strconv.Atoi(s)
-- 
2.43.0


From 87637b280e176c1987c95e8fd56c871d474297c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 35/44] fix: the key typed after a prompt, the picker or a view
 is not lost

---
 internal/tui/input.go    | 49 ++++++++++++++++++++++++++++++++++++++++
 internal/tui/parallel.go |  8 ++++++-
 internal/tui/prompt.go   | 14 ++++++------
 internal/tui/tui.go      |  8 ++++++-
 4 files changed, 70 insertions(+), 9 deletions(-)
 create mode 100644 internal/tui/input.go

diff --git a/internal/tui/input.go b/internal/tui/input.go
new file mode 100644
index 0000000..7e0f0a5
--- /dev/null
+++ b/internal/tui/input.go
@@ -0,0 +1,49 @@
+package tui
+
+import (
+	"context"
+	"io"
+	"os"
+	"sync/atomic"
+
+	"charm.land/huh/v2"
+	"golang.org/x/term"
+)
+
+// sessionInput is standard input for the time of one program. The program may
+// leave a reader behind that waits for the next key; once the session is over
+// that reader gets nothing, so that the key reaches whoever reads next.
+type sessionInput struct {
+	*os.File
+	over atomic.Bool
+}
+
+// newSessionInput returns nil if standard input is not a terminal.
+func newSessionInput() *sessionInput {
+	if !term.IsTerminal(int(os.Stdin.Fd())) {
+		return nil
+	}
+	return &sessionInput{File: os.Stdin}
+}
+
+func (in *sessionInput) Read(p []byte) (int, error) {
+	if in.over.Load() {
+		return 0, io.EOF
+	}
+	return in.File.Read(p)
+}
+
+func (in *sessionInput) end() {
+	if in != nil {
+		in.over.Store(true)
+	}
+}
+
+func runForm(ctx context.Context, form *huh.Form) error {
+	in := newSessionInput()
+	defer in.end()
+	if in != nil {
+		form = form.WithInput(in)
+	}
+	return form.RunWithContext(ctx)
+}
diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index c1f701c..3834e6a 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,9 +46,15 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	program := tea.NewProgram(model, tea.WithOutput(os.Stderr))
+	opts := []tea.ProgramOption{tea.WithOutput(os.Stderr)}
+	in := newSessionInput()
+	if in != nil {
+		opts = append(opts, tea.WithInput(in))
+	}
+	program := tea.NewProgram(model, opts...)
 	go func() {
 		_, _ = program.Run()
+		in.end()
 	}()
 	return program, nil
 }
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 24b1716..30917a0 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -99,7 +99,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(confirm))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -134,7 +134,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -161,7 +161,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(sel))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -201,7 +201,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 	}
 
 	form := huh.NewForm(huh.NewGroup(multi))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -220,7 +220,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		Value(&result)
 
 	form := huh.NewForm(huh.NewGroup(pw))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -241,7 +241,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 			})
 
 		confirmForm := huh.NewForm(huh.NewGroup(confirmPw))
-		if err := confirmForm.RunWithContext(ctx); err != nil {
+		if err := runForm(ctx, confirmForm); err != nil {
 			if errors.Is(err, huh.ErrUserAborted) {
 				return "", ErrPromptCancelled
 			}
@@ -286,7 +286,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 	}
 
 	form := huh.NewForm(huh.NewGroup(input))
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, form); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 83645b5..7346fd3 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,13 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx)).Run()
+	opts := []tea.ProgramOption{tea.WithContext(ctx)}
+	in := newSessionInput()
+	defer in.end()
+	if in != nil {
+		opts = append(opts, tea.WithInput(in))
+	}
+	result, err := tea.NewProgram(picker.New(tasks), opts...).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
-- 
2.43.0


From f35ed3a18ab82dde53340d014d58d7216edb457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 36/44] fix: a signal during a prompt or the picker ends bab

---
 internal/tui/input.go | 11 ++++++++++-
 internal/tui/tui.go   |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 7e0f0a5..58aece5 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"sync/atomic"
 
+	tea "charm.land/bubbletea/v2"
 	"charm.land/huh/v2"
 	"golang.org/x/term"
 )
@@ -39,11 +40,19 @@ func (in *sessionInput) end() {
 	}
 }
 
+// runForm runs a form until it is answered or the context ends. Signals are
+// left to the context: a handler of the form's own would wait forever for a
+// program that the context has stopped.
 func runForm(ctx context.Context, form *huh.Form) error {
+	form = form.WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
 	in := newSessionInput()
 	defer in.end()
 	if in != nil {
 		form = form.WithInput(in)
 	}
-	return form.RunWithContext(ctx)
+	err := form.RunWithContext(ctx)
+	if err != nil && ctx.Err() != nil {
+		return ctx.Err()
+	}
+	return err
 }
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 7346fd3..9083266 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,7 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	opts := []tea.ProgramOption{tea.WithContext(ctx)}
+	opts := []tea.ProgramOption{tea.WithContext(ctx), tea.WithoutSignalHandler()}
 	in := newSessionInput()
 	defer in.end()
 	if in != nil {
-- 
2.43.0


From 29015f4eee93abadb289e31f5972af25ccef9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 37/44] fix: the installer can read the hash openssl prints

---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index fe7dd81..80e2b9f 100755
--- a/install.sh
+++ b/install.sh
@@ -316,7 +316,7 @@ hash_sha256() {
     echo "$hash" | cut -d ' ' -f 1
   elif is_command openssl; then
     hash=$(openssl dgst -sha256 "$TARGET") || return 1
-    echo "$hash" | cut -d ' ' -f a
+    echo "${hash##* }"
   else
     log_crit "hash_sha256 unable to find command to compute sha-256 hash"
     return 1
-- 
2.43.0


From 6137626d3068678f16f935b4d67585c35ffe6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 38/44] fix: the installer removes its temporary files when it
 fails

---
 install.sh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/install.sh b/install.sh
index 80e2b9f..9f70226 100755
--- a/install.sh
+++ b/install.sh
@@ -87,7 +87,6 @@ compare_versions() {
 }
 
 execute() {
-  tmpdir=$(mktemp -d)
   log_debug "downloading files into ${tmpdir}"
   http_download "${tmpdir}/${TARBALL}" "${TARBALL_URL}"
   http_download "${tmpdir}/${CHECKSUM}" "${CHECKSUM_URL}"
@@ -102,7 +101,6 @@ execute() {
     install "${srcdir}/${binexe}" "${BINDIR}/"
     log_info "installed ${BINDIR}/${binexe}"
   done
-  rm -rf "${tmpdir}"
 
   if ! check_path; then
     log_info ""
@@ -284,10 +282,9 @@ http_download() {
 }
 
 http_copy() {
-  tmp=$(mktemp)
+  tmp="${tmpdir}/release"
   http_download "${tmp}" "$1" "$2" || return 1
   body=$(cat "$tmp")
-  rm -f "${tmp}"
   echo "$body"
 }
 
@@ -397,6 +394,10 @@ uname_arch_check "$ARCH"
 
 parse_args "$@"
 
+tmpdir=$(mktemp -d)
+trap 'rm -rf "${tmpdir}"' EXIT
+trap 'exit 1' HUP INT TERM
+
 BINARIES="${BINARY}"
 tag_to_version
 adjust_format
-- 
2.43.0


From 52bfe06893cc82179367dec2821e00cc24c0b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 39/44] fix: the installer keeps the old binary when it cannot
 install the new one

---
 install.sh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index 9f70226..48d6630 100755
--- a/install.sh
+++ b/install.sh
@@ -98,7 +98,10 @@ execute() {
     if [ "$OS" = "windows" ]; then
       binexe="${binexe}.exe"
     fi
-    install "${srcdir}/${binexe}" "${BINDIR}/"
+    staged="${BINDIR}/.${binexe}.$$"
+    install "${srcdir}/${binexe}" "${staged}"
+    mv -f "${staged}" "${BINDIR}/${binexe}"
+    staged=""
     log_info "installed ${BINDIR}/${binexe}"
   done
 
@@ -395,7 +398,8 @@ uname_arch_check "$ARCH"
 parse_args "$@"
 
 tmpdir=$(mktemp -d)
-trap 'rm -rf "${tmpdir}"' EXIT
+staged=""
+trap 'rm -rf "${tmpdir}" ${staged:+"${staged}"}' EXIT
 trap 'exit 1' HUP INT TERM
 
 BINARIES="${BINARY}"
-- 
2.43.0


From 7d487eb82cd04be322da826614794973945ea925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 40/44] fix: the installer takes the checksum of the archive
 itself

---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index 48d6630..053de88 100755
--- a/install.sh
+++ b/install.sh
@@ -331,7 +331,7 @@ hash_sha256_verify() {
     return 1
   fi
   BASENAME=${TARGET##*/}
-  want=$(grep "${BASENAME}" "${checksums}" 2>/dev/null | tr '\t' ' ' | cut -d ' ' -f 1)
+  want=$(tr '\t' ' ' <"${checksums}" | grep " [*]\{0,1\}${BASENAME}\$" | cut -d ' ' -f 1)
   if [ -z "$want" ]; then
     log_err "hash_sha256_verify unable to find checksum for '${TARGET}' in '${checksums}'"
     return 1
-- 
2.43.0


From ca29d7efecee15b18193296849b9beb85b8a39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 41/44] fix: the installer does not go on with a download that
 broke off

---
 install.sh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index 053de88..b3a94bf 100755
--- a/install.sh
+++ b/install.sh
@@ -249,9 +249,13 @@ http_download_curl() {
   source_url=$2
   header=$3
   if [ -z "$header" ]; then
-    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url") && status=0 || status=$?
   else
-    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url") && status=0 || status=$?
+  fi
+  if [ "$status" -ne 0 ]; then
+    log_err "http_download_curl failed with exit status $status"
+    return 1
   fi
   if [ "$code" != "200" ]; then
     log_err "http_download_curl received HTTP status $code"
-- 
2.43.0


From 6e1199f6aad6d309d50065b9b77651cc7601d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 42/44] fix: a signal does not leave a parallel view waiting
 for its own handler

---
 internal/tui/parallel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index 3834e6a..64120cb 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,7 +46,9 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	opts := []tea.ProgramOption{tea.WithOutput(os.Stderr)}
+	// A signal ends the items through their context, and the view with them; a
+	// handler of its own could wait forever for a view that has just ended.
+	opts := []tea.ProgramOption{tea.WithOutput(os.Stderr), tea.WithoutSignalHandler()}
 	in := newSessionInput()
 	if in != nil {
 		opts = append(opts, tea.WithInput(in))
-- 
2.43.0


From dbc6090c243e7171c1f12f5cc2d64b286e9df28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 43/44] fix: nothing more runs after a parallel view was
 cancelled

---
 internal/runner/parallel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 97d3f58..519bf57 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -393,6 +393,12 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 		program.Wait()
 	}
 
+	// Items that were done all the same when the view was cancelled do not make
+	// the run go on.
+	if firstErr == nil {
+		firstErr = ctx.Err()
+	}
+
 	if !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
 		if ownsProgram {
 			output.ParallelDone(labels, itemErrs)
-- 
2.43.0


From 9dc41669c52357cecbbdea2a158a98704a97c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 44/44] fix: cancelling also ends what a finished parallel
 command left in the background

---
 internal/runner/runner.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 30a2db2..bf3a187 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -584,7 +584,18 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 		cmd.Dir = dir
 	}
 
-	err := cmd.Run()
+	if err := cmd.Start(); err != nil {
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
+		return err
+	}
+	// cmd.Cancel is no longer called once the shell itself has ended, but
+	// Wait goes on while its background processes hold the output open.
+	stop := context.AfterFunc(ctx, func() { _ = signalProcessGroup(cmd) })
+	defer stop()
+
+	err := cmd.Wait()
 	if err != nil && ctx.Err() != nil {
 		return ctx.Err()
 	}
-- 
2.43.0

