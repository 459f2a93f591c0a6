From 58453330bb96abf9c5dfff4f21eadb70068aa967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 1/5] fix: fill missing controls with NaN when the reference
 array is not floating

np.full_like kept the integer (or boolean) dtype of Z or A, so the NaN
placeholder of an omitted U or B became a huge negative integer (or True)
that was then used as a real control by KalmanFilter and handed to f by
ExtendedKalmanFilter.
---
 src/kalmankit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..173b87a 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,8 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        # an integer or boolean "broad_to" cannot hold nan
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From 3112638901052a6e833e9b48b8ee03a06450ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 2/5] fix: accept None as control matrix or control input in
 KalmanFilter.predict

The docstring documents None for Bk and uk, but np.isnan(None) raised a
TypeError.
---
 src/kalmankit/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..328ea6a 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,7 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 3bbe7c96e2560b81ebae2e4d7acaa8da196cd158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 3/5] fix: smooth an empty series to empty results

filter returns empty arrays for an empty Z, but smooth raised IndexError
on them.
---
 src/kalmankit/extended.py | 4 ++--
 src/kalmankit/standard.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..e96e4bb 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -348,8 +348,8 @@ class ExtendedKalmanFilter:
         Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))
 
         # smooth initialization
-        xk_smooth[-1] = x_est[-1]
-        Pk_smooth[-1] = P_est[-1]
+        xk_smooth[-1:] = x_est[-1:]
+        Pk_smooth[-1:] = P_est[-1:]
 
         # to avoid the filter failing
         U = check_none_and_broadcast(U, Z)
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 328ea6a..9e171b6 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -349,8 +349,8 @@ class KalmanFilter:
         Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))
 
         # smooth initialization
-        xk_smooth[-1] = x_est[-1]
-        Pk_smooth[-1] = P_est[-1]
+        xk_smooth[-1:] = x_est[-1:]
+        Pk_smooth[-1:] = P_est[-1:]
 
         # to avoid the filter failing
         U = check_none_and_broadcast(U, Z)
-- 
2.43.0


From 3b19a89c3ea111630803856942c4a913f41f9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 4/5] fix: raise instead of returning zero rows when a model
 sequence is too short

filter iterates with zip, which stops at the shortest of the model
sequences. The remaining rows were returned as zero states with zero
covariance, i.e. as perfectly certain estimates that were never computed.
---
 src/kalmankit/extended.py | 9 +++++++++
 src/kalmankit/standard.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index e96e4bb..ce06cc3 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -284,6 +284,7 @@ class ExtendedKalmanFilter:
         update_func = self.update
 
         # feedback-control loop
+        n_steps = 0
         _iterable = zip(U, Z, self.Q, self.R)
         for k, (uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
@@ -300,6 +301,14 @@ class ExtendedKalmanFilter:
             # update estimates for the next iteration
             xk = xk_posterior
             Pk = Pk_posterior
+            n_steps = k + 1
+
+        # zip stops at the shortest sequence: do not return unestimated rows
+        if n_steps < len(Z):
+            raise ValueError(
+                f"U, Q and R must cover all {len(Z)} observations, "
+                f"but one of them has only {n_steps} time steps."
+            )
 
         return states, errors
 
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 9e171b6..86e9d5d 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -288,6 +288,7 @@ class KalmanFilter:
         update_func = self.update
 
         # feedback-control loop
+        n_steps = 0
         _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)
         for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
@@ -306,6 +307,14 @@ class KalmanFilter:
             # update estimates for the next iteration
             xk = xk_posterior
             Pk = Pk_posterior
+            n_steps = k + 1
+
+        # zip stops at the shortest sequence: do not return unestimated rows
+        if n_steps < len(Z):
+            raise ValueError(
+                f"A, H, B, U, Q and R must cover all {len(Z)} observations, "
+                f"but one of them has only {n_steps} time steps."
+            )
 
         return states, errors
 
-- 
2.43.0


From 94b7610534dc37bd89f454c4c2554c799102b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 5/5] fix: do not record the gain of an update that fails

---
 src/kalmankit/extended.py | 4 +++-
 src/kalmankit/standard.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index ce06cc3..da4f7cc 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -235,7 +235,6 @@ class ExtendedKalmanFilter:
 
         # optimal kalman gain
         Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
-        self.kalman_gains.append(Kk)
 
         # update estimate via zk
         xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))
@@ -243,6 +242,9 @@ class ExtendedKalmanFilter:
         # update error covariance
         Pk_posterior = (self.__I - Kk @ Hk) @ Pk
 
+        # record the gain only once the update can no longer fail
+        self.kalman_gains.append(Kk)
+
         return xk_posterior, Pk_posterior
 
     def filter(
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 86e9d5d..3dc5477 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -239,7 +239,6 @@ class KalmanFilter:
 
         # optimal kalman gain
         Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
-        self.kalman_gains.append(Kk)
 
         # update estimate via zk
         xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))
@@ -247,6 +246,9 @@ class KalmanFilter:
         # update error covariance
         Pk_posterior = (self.__I - Kk @ Hk) @ Pk
 
+        # record the gain only once the update can no longer fail
+        self.kalman_gains.append(Kk)
+
         return xk_posterior, Pk_posterior
 
     def filter(
-- 
2.43.0

