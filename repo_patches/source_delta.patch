From aa21f2931c36f724cecf5a0e1e9b67f46db82252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 01/15] fix: Adams coefficients in the order of the history
 (oldest first)

The history buffer stores the oldest derivative first, but B of
AdamsBashforth2-5 and AdamsMoulton4-5 listed the newest first, so the
documented formulas were applied to the wrong derivatives and the methods
were only first order.
---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From addd7c089e3580949f08fe60e0a5d64ea5c2d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 02/15] fix: IMPLICIT flag of multistep methods was inverted

get_solvers(implicit=True) listed the explicit Adams-Bashforth methods and
implicit=False the Adams-Moulton and BDF methods.
---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 712c29b2ab6dd731103ddd8435311d3460d98cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/15] fix: start multistep methods at t0, not at 0

With a variable step first stepper the start-up points were h, 2h, ..
whatever t0 was: a ValueError, or a history with the wrong spacing.
---
 nbkode/multistep/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..f837fab 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -58,9 +58,9 @@ class Multistep(Solver, abstract=True):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
-            # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
+            # For variable step solver we run until t0 + h, t0 + 2h .. t0 + (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 64a96ea82e8950a38c6631bcdbf5274ebabc74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 04/15] fix: no gap in the history when the first stepper is a
 multistep method

Such a first stepper had already advanced by its own start-up when its
first step was recorded, so the history was not equally spaced.
---
 nbkode/multistep/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index f837fab..698d6d3 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -53,7 +53,11 @@ class Multistep(Solver, abstract=True):
 
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
-            solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
+            kwargs = {}
+            if issubclass(first_stepper_cls, Multistep):
+                # Its own start-up would advance it before the first step.
+                kwargs["first_stepper_cls"] = None
+            solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h, **kwargs)
             for _ in range(self.ORDER - 1):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
-- 
2.43.0


From 6e5acd8a9dd1ea2770bebc0b3f66c86f2bc9f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 05/15] fix: the start-up of multistep methods respects t_bound

---
 nbkode/multistep/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 698d6d3..e5b199e 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -43,6 +43,8 @@ class Multistep(Solver, abstract=True):
                 self.cache.push(self.t, self.y, self.f)
             return
 
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
-- 
2.43.0


From a76ec6c185e2a1b63a6caf4ce20f3d64b7450c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 06/15] fix: step() and skip() are equivalent to n=1, as
 documented

step() returned a view of the history, overwritten by the next step, and
None once t_bound was reached; skip() silently did nothing there.
---
 nbkode/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..b6dd0bf 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -245,8 +245,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+            ts, ys = self.step(n=1)
+            return ts, ys[0]
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,8 +296,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
-        elif upto_t is None:
+            n = 1
+
+        if upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
-- 
2.43.0


From c388f81b24714059f4e5e3fcfba460ddab3c3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 07/15] fix: run_events crashed when asked for the current or a
 past time

warnings.warning does not exist.
---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b6dd0bf..d40962f 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -439,7 +439,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 98eec7ff67b334efb7ef4786cb935630058bb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 08/15] fix: run does not silently drop timepoints when t_bound
 is reached

When the next step would go beyond t_bound, the timepoints still pending
were missing from the output (or, with unsorted timepoints, an IndexError
was raised). Raise RuntimeError as step and skip do.
---
 nbkode/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index d40962f..8c34daa 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -329,6 +329,8 @@ class Solver(ABC, metaclass=MetaSolver):
         ------
         ValueError
             One of the timepoints provided is outside the valid range.
+        RuntimeError
+            The integrator reached `t_bound`.
         """
         return self.run_events(t, None)[:2]
 
@@ -382,6 +384,8 @@ class Solver(ABC, metaclass=MetaSolver):
         ------
         ValueError
             One of the timepoints provided is outside the valid range.
+        RuntimeError
+            The integrator reached `t_bound`.
         """
         t = np.atleast_1d(t).astype(np.float64)
 
@@ -408,7 +412,6 @@ class Solver(ABC, metaclass=MetaSolver):
         else:
             t_to_run = t
 
-        # t_bound will not be reached a it due to validation in _check_time
         if events:
             eh = event_handler.build_handler(events, self.t, self.y)
             ts, ys, scon = self._run_eval_events(
@@ -434,6 +437,10 @@ class Solver(ABC, metaclass=MetaSolver):
             t_events = []
             y_events = []
 
+        if scon:
+            # The next step would go beyond t_bound.
+            raise RuntimeError("Integrator reached t_bound.")
+
         if is_to_interpolate:
             ts = np.concatenate((t_old, ts))
             ys = np.concatenate((y_old, ys))
@@ -642,7 +649,7 @@ class Solver(ABC, metaclass=MetaSolver):
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
                     # Append termination value.
                     t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    return t_eval[: ndx + 1], y_out[: ndx + 1], False
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From 650cf04fef6b86a3470018e0a6d9341b35fd0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 09/15] fix: states of events and interpolate are copies, not
 views of the history

At a recorded timepoint the interpolators return a view of the history,
so the state reported for an event changed as the integration went on.
---
 nbkode/core.py          | 2 +-
 nbkode/event_handler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 8c34daa..f9aa3b4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -477,7 +477,7 @@ class Solver(ABC, metaclass=MetaSolver):
                 f"Time {t} to interpolate outside range ([{self.cache.ts[0]}, {self.cache.t}])"
             )
 
-        return self._interpolate(t, *self._step_args)
+        return np.copy(self._interpolate(t, *self._step_args))
 
     @staticmethod
     @abstractmethod
diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..20041d4 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -158,7 +158,7 @@ class Event:
             # This is required to avoid duplicates
             if not (self.t and self.t[-1] == root):
                 self.t.append(root)
-                self.y.append(interpolate(root, rhs, cache, *args))
+                self.y.append(np.copy(interpolate(root, rhs, cache, *args)))
 
         self.last_t = t
         self.last_value = value
-- 
2.43.0


From 8355ac9e72d501a64bc661c8a228e1cac268728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 10/15] fix: of several terminal events in one step, the
 earliest one terminates

The last one in the list did, and events after the termination were
reported.
---
 nbkode/event_handler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 20041d4..ffe0dab 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -165,6 +165,11 @@ class Event:
 
         return trigger and self.is_terminal
 
+    def discard_after(self, t):
+        if self.t and self.t[-1] > t:
+            self.t.pop()
+            self.y.pop()
+
     @property
     def last_event(self):
         if self.t:
@@ -221,13 +226,17 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
-        for ndx, event in enumerate(self.events):
+        for event in self.events:
             if event.evaluate(interpolate, rhs, cache, *args):
-                terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if not terminate or t < self.last_event[0]:
                     self.last_event = t, y
+                terminate = True
+
+        if terminate:
+            # Nothing happens after the (first) termination.
+            for event in self.events:
+                event.discard_after(self.last_event[0])
 
         return terminate
 
-- 
2.43.0


From bb2b25178525d6a631c5fb0d5b4de78d6f5cc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 11/15] fix: timepoints before a terminal event are part of the
 output

Those within the step in which the event was found were dropped, and
unsorted timepoints raised an IndexError.
---
 nbkode/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index f9aa3b4..64c3d2e 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -451,7 +451,7 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        ondx = np.argsort(ndx[: ts.size])
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
@@ -647,9 +647,16 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
-                    # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], False
+                    t_last, y_last = event_handler.last_event
+                    last = ndx
+                    while last < t_eval.size and t_eval[last] < t_last:
+                        y_out[last] = interpolate(t_eval[last], rhs, cache, *args)
+                        last += 1
+                    if last < t_eval.size:
+                        # Append termination value.
+                        t_eval[last], y_out[last] = t_last, y_last
+                        last += 1
+                    return t_eval[:last], y_out[:last], False
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From b0ce6c468b14a9589e8bd57c771eb949a4decaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 12/15] fix: interpolate within the recorded step that contains
 the timepoint

Multistep methods with more than two recorded points interpolated between
the oldest and the newest one, ignoring those in between: the interpolant
did not go through the recorded states.
---
 nbkode/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 64c3d2e..a3b3472 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -589,12 +589,17 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Find the recorded step that contains t_eval.
+        ndx = 1
+        while ndx < cache.ts.size - 1 and cache.ts[ndx] < t_eval:
+            ndx += 1
+
+        t0, y0 = cache.ts[ndx - 1], cache.ys[ndx - 1]
         if t_eval == t0:
             return y0
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = cache.ts[ndx] - t0, cache.ys[ndx] - y0
+        f0, f1 = cache.fs[ndx - 1], cache.fs[ndx]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From df02182048fdc563587665ba06caaaf5c24d1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 13/15] fix: DOP853 divided by zero when the error estimate is
 zero

This is the case for any constant solution.
---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..e7a9da8 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = err5
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From de01ca9bc5f36028d819b588484d63395728a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 14/15] fix: max_step was ignored by variable step methods

---
 nbkode/core.py             | 2 +-
 nbkode/runge_kutta/core.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index a3b3472..6858b74 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -723,7 +723,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..abe4f42 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -91,11 +91,12 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         Returns True if step is accepted.
         """
         if error_norm == 0:
-            h *= options.max_factor
+            h[()] = min(h * options.max_factor, options.max_step)
             return True  # step accepted
 
         factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
+        factor = min(options.max_factor, max(options.min_factor, factor))
+        h[()] = min(h * factor, options.max_step)
         return error_norm < 1
 
     @classmethod
-- 
2.43.0


From dfc1bdb8cda882690dffd2698dab09d4bc5963a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 15/15] fix: bisect rejected a valid bracket when the product
 underflows

With values of the order of 1e-170 at both ends, yl * yr is zero.
---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..d100860 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -515,7 +515,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not (yl < 0 < yr or yr < 0 < yl):
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0

