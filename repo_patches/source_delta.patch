From 7950c17b78145605ee7f11b1e29fac7f0675d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 01/43] fix: accept a minimum cycle (func_cycle) of 0 minutes

---
 ramp/core/core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..69ff653 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1827,11 +1827,14 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts at least one minute, also if no minimum cycle is required (func_cycle=0)
+        func_cycle = max(self.func_cycle, 1)
+
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= func_cycle:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
         if n_choices > 0:
@@ -1840,7 +1843,7 @@ class Appliance:
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - func_cycle:
                     spot_idx = i
                     break
 
@@ -1848,16 +1851,15 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > func_cycle:
                 indexes = np.arange(
                     switch_on,
-                    switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    switch_on + (int(random.uniform(func_cycle, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == func_cycle:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
-                print("func time", self.func_cycle)
+                print("func time", func_cycle)
                 print("max window", self.free_spots[spot_idx].stop)
                 print("rand_time", rand_time)
                 print("upper_limit", largest_duration)
-- 
2.43.0


From 40d584d2bf156541028e7318f1434acfc47ecf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 02/43] fix: do not free the wrong stretch of time when windows
 of use touch

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 69ff653..e051e7e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1508,7 +1508,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
-- 
2.43.0


From e063a20fc0520fb1dde0806859800ca730d720a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 03/43] fix: handle windows whose randomised end precedes their
 randomised start

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e051e7e..99f08df 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1582,6 +1582,9 @@ class Appliance:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
+        if rand_window[1] < rand_window[0]:
+            # the window is empty if its randomised end comes before its randomised start
+            rand_window[1] = rand_window[0]
 
         return rand_window
 
-- 
2.43.0


From efb598c10fc274c609df84562ef272e157912b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 04/43] fix: compute the peak time range when the peak window
 is a single minute

---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 99f08df..0bd0128 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From efd8884a5e98d855843864be717a2cbcaf1ddf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 05/43] fix: compare appliances whose powers or windows have
 different lengths or containers

---
 ramp/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 0bd0128..e431335 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1317,7 +1317,9 @@ class Appliance:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    np.array_equal(
+                        getattr(self, attribute), getattr(other_appliance, attribute)
+                    ),
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From b46d28dc20afc1ae4d9187a3572819261698f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 06/43] fix: no endless recursion when switch-on events fall
 outside the duty cycle windows

---
 ramp/core/core.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e431335..093f726 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1823,6 +1823,27 @@ class Appliance:
     def rand_switch_on_window(self, rand_time: int):
         """Identifies a random switch on window within the available functioning windows
 
+        The draw is repeated as long as the switch on window falls outside the duty cycle windows, if any. None is
+        returned if no (more) switch on window is possible.
+        """
+        indexes = self.draw_switch_on_window(rand_time)
+        while indexes is not None and indexes.size == 0:
+            duty_cycle_windows = (
+                self.cw11, self.cw12, self.cw21, self.cw22, self.cw31, self.cw32
+            )
+            if not any(
+                range_within_window(s.start, s.stop - 1, cw)
+                for s in self.free_spots
+                if s.stop - s.start >= max(self.func_cycle, 1)
+                for cw in duty_cycle_windows
+            ):
+                return None
+            indexes = self.draw_switch_on_window(rand_time)
+        return indexes
+
+    def draw_switch_on_window(self, rand_time: int):
+        """Draws a random switch on window, empty if it falls outside the duty cycle windows
+
         This corresponds to step 2c. of:
 
             F. Lombardi, S. Balderrama, S. Quoilin, E. Colombo,
@@ -1913,7 +1934,7 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    return self.rand_switch_on_window(rand_time)
+                    return np.array([], dtype=int)
 
                 if (
                     indexes.size > duty_cycle_duration
-- 
2.43.0


From f8078050dc824e2943e96814eeaff4efe88a2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 07/43] fix: an undeclared duty cycle window does not match
 events at midnight

---
 ramp/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..2ad736b 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -146,6 +146,9 @@ def range_within_window(range_low, range_high, window):
     higher than the highest window value
 
     """
+    if window[0] == window[1]:
+        # an empty window (for example a window which was not provided) does not overlap with anything
+        return False
     return not (
         (range_low < window[0] and range_high < window[0])
         or (range_low > window[1] and range_high > window[1])
-- 
2.43.0


From 8b90ca74da3f73071bce045551aec01a882f572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 08/43] fix: a randomised duty cycle lasts at least one minute

---
 ramp/core/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 2ad736b..5a6744f 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -130,12 +130,16 @@ def duty_cycle(var, t1, p1, t2, p2):
     Power during each timestep of the duty cycle where p1 is repeated (t1 +- random variation) times and p2 is repeated (t2 +- random variation) times.
     The duty cycle is implicitly sampled every minutes (which is the unit for t1 and t2)
     """
-    return np.concatenate(
+    cycle = np.concatenate(
         (
             np.ones(int(random_variation(var=-var, norm=t1))) * p1,
             np.ones(int(random_variation(var=-var, norm=t2))) * p2,
         )
     )
+    if cycle.size == 0:
+        # a duty cycle lasts at least one minute
+        cycle = np.ones(1) * (p1 if t1 > 0 else p2 if t2 > 0 else 0)
+    return cycle
 
 
 def range_within_window(range_low, range_high, window):
-- 
2.43.0


From 7112d8094131548071162ac455591202a61760e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 09/43] fix: use any random seed, and before the first random
 draw

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 093f726..ee0522f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From 44489d18110eda319a8fc1c77f0c4cb57c77c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 10/43] fix: the maximum profile does not depend on the last
 generated profile

---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ee0522f..c562967 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1598,7 +1598,11 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        # the attribute daily_use can not be used here, as it holds the last profile generated, if any
+        windows_curve = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_curve[window[0] : window[1]] = 0.001
+        return windows_curve * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From 95b4e19213e5bc89946bad203169b47fb0308060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 11/43] fix: parallel generation draws user preferences, is
 reproducible and accepts models without appliances

---
 ramp/core/core.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index c562967..d80ba87 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,10 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, args, rand_daily_pref, seed = args
+    # the random draws should neither depend on the process running the task nor on the order of the tasks
+    random.seed(seed)
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -478,10 +481,19 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    # the daily preference is common to all appliances of a single user
+                    rand_daily_pref = user.draw_daily_preference()
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                (day_idx, self.peak_time_range, day_type),
+                                rand_daily_pref,
+                                random.getrandbits(64),
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
@@ -492,10 +504,11 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                # the profiles are collected in the order of the tasks, so that their sum is reproducible
+                imap_it = pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
                 )
-                for prof_i, daily_load in imap_unordered_it:
+                for prof_i, daily_load in imap_it:
                     if prof_i in daily_profiles_dict:
                         daily_profiles_dict[prof_i].append(daily_load)
                     else:
@@ -504,7 +517,7 @@ class UseCase:
 
             daily_profiles = np.zeros((self.num_days, 1440))
 
-            for day_idx in range(self.num_days):
+            for day_idx in daily_profiles_dict:
                 daily_profiles[day_idx, :] = np.vstack(
                     daily_profiles_dict[day_idx]
                 ).sum(axis=0)
@@ -967,6 +980,12 @@ appliances: no appliances assigned to the user.
             name=name,
         )
 
+    def draw_daily_preference(self) -> int:
+        """Randomised preference of a single user for a given day, 0 if no preferences are defined"""
+        return (
+            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
+        )
+
     def generate_single_load_profile(
         self, prof_i: int = 0, peak_time_range: np.array = None, day_type: int = 0
     ):
@@ -1001,9 +1020,7 @@ appliances: no appliances assigned to the user.
 
         single_load = np.zeros(1440)
 
-        self.rand_daily_pref = (
-            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
-        )
+        self.rand_daily_pref = self.draw_daily_preference()
 
         for (
             App
-- 
2.43.0


From c8ab4ce28b517f10a2b93144747c55c1b4ddfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 12/43] fix: no division by zero for an appliance of 0 units
 switched on off-peak

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d80ba87..3a296a5 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1997,7 +1997,7 @@ class Appliance:
                 ),
             )
         # check if indexes are off-peak
-        elif inside_peak_window is False and self.fixed == "no":
+        elif inside_peak_window is False and self.fixed == "no" and self.number > 0:
             # calculates probability of coincident switch_ons off-peak
             # eq. 3 of [1]
             prob = random.uniform(0, (self.number - op_factor) / self.number)
-- 
2.43.0


From 702d9fa7cbb3aadbfb54657e539a8bfb1356ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 13/43] fix: a forced initialization uses the dates of the
 usecase instead of the previous number of days

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 3a296a5..2300e44 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -235,6 +235,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the number of days is given by the dates unless it is explicitly provided
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From e694e64f3a2ddec39ff19180894d642388f47aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 14/43] fix: check the power of appliances added after the
 creation of the usecase

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 2300e44..3da0c04 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -309,6 +309,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From d75979bd6c1c07e1387b7dd83c9a1bc5efde56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 15/43] fix: a refused initialization does not change the days
 of the usecase

---
 ramp/core/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 3da0c04..4359c98 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -229,6 +229,7 @@ class UseCase:
                 f"You will typically see this message if you provide 'date_start' and 'date_end' to a UseCase instance and want to call the method initialize() on top of that"
             )
         else:
+            previous_days = (self.days, self.__num_days)
             if self.is_initialized is True and force is True:
                 # logging.info
                 print(
@@ -310,13 +311,18 @@ class UseCase:
 
             # Verify that each appliance has long enough power data for the simulated time
             self.collect_appliances_from_users()
-            for app in self.appliances:
-                app.check_power_values(self.__num_days)
+            try:
+                for app in self.appliances:
+                    app.check_power_values(self.__num_days)
 
-            if peak_enlarge is not None:
-                self.peak_enlarge = peak_enlarge
-            else:
-                self.peak_time_range = self.calc_peak_time_range()
+                if peak_enlarge is not None:
+                    self.peak_enlarge = peak_enlarge
+                else:
+                    self.peak_time_range = self.calc_peak_time_range()
+            except (ValueError, TypeError):
+                # a refused initialization leaves the usecase as it was
+                self.days, self.__num_days = previous_days
+                raise
             # format datetimeindex in minutes
             self.__datetimeindex = pd.date_range(
                 start=self.days[0],
-- 
2.43.0


From 234f372103d28a34e95323e2ee29db93d88c9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 16/43] fix: users added or loaded after the initialization
 count for the peak time range and the power checks

---
 ramp/core/core.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4359c98..e3e12c4 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -172,8 +172,20 @@ class UseCase:
             any type rather than User will raise the error.
         """
         if isinstance(user, User):
+            previous_usecase = user.usecase
             user.usecase = self
+            if self.is_initialized is True:
+                try:
+                    for app in user.App_list:
+                        app.check_power_values(self.num_days)
+                except ValueError:
+                    user.usecase = previous_usecase
+                    raise
             self.users.append(user)
+            if self.is_initialized is True:
+                # the peak time range depends on all users of the usecase
+                self.collect_appliances_from_users()
+                self.peak_time_range = self.calc_peak_time_range()
         elif isinstance(user, list):
             for u in user:
                 self.add_user(u)
@@ -619,9 +631,8 @@ class UseCase:
                     "'user_preference' should be the same for a given user profile"
                 )
 
-            # create user and add it to usecase
+            # create user
             user = User(user_name, num_users, user_preference)
-            self.add_user(user)
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
             for row in user_df.loc[
                 :, ~user_df.columns.isin(["user_name", "num_users", "user_preference"])
@@ -663,6 +674,9 @@ class UseCase:
 
                 user.add_appliance(**appliance_parameters)
 
+            # add user with all its appliances to usecase
+            self.add_user(user)
+
         self.collect_appliances_from_users()
 
 
-- 
2.43.0


From 59e39bfab279a765051e2ea78fd913d27be07ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 17/43] fix: a power series whose first and last values are
 equal is saved entirely

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e3e12c4..9370fcc 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1293,7 +1293,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if np.all(power_values == power_values[0]):
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1310,7 +1310,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if np.all(power_values == power_values[0]):
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 41fa7f2a637a4577baceddbba33c4fdb847bc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 18/43] fix: accept a power given as np.array or pd.Series as
 documented, or as a numpy number

---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9370fcc..2e234e2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1206,10 +1206,14 @@ class Appliance:
         if isinstance(power, pd.DataFrame):
             power = power.values[:, 0]
 
+        elif isinstance(power, (pd.Series, np.ndarray)):
+            # a series of daily values, also if provided as a single column
+            power = np.array(power).reshape(-1)
+
         elif isinstance(power, str):
             power = pd.read_json(power).values[:, 0]
 
-        elif isinstance(power, (float, int)):
+        elif isinstance(power, (float, int, np.number)):
             power = power * np.ones(self.user.num_days + 1)
             self.__constant_power = True
 
-- 
2.43.0


From 9317b415cf84749d1409082569189688ff7e99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 19/43] fix: read a power series given in two columns
 (timestamps and values), in a sheet with a quoted name, without loss of
 precision; refuse any other form

---
 ramp/core/core.py  |  9 ++++++++-
 ramp/core/utils.py | 38 ++++++++++++++++++--------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 2e234e2..f070a47 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -10,6 +10,7 @@ import pandas as pd
 from tqdm import tqdm
 import multiprocessing
 import warnings
+import json
 import random
 import math
 import datetime
@@ -1211,7 +1212,13 @@ class Appliance:
             power = np.array(power).reshape(-1)
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # only one column (values) or two columns (timestamps and values, respectively) are possible
+            power = pd.DataFrame(json.loads(power)).values
+            if power.shape[1] not in (1, 2):
+                raise ValueError(
+                    f"Wrong format of the power series of appliance '{self.name}'."
+                )
+            power = power[:, -1].astype(float)
 
         elif isinstance(power, (float, int, np.number)):
             power = power * np.ones(self.user.num_days + 1)
diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 5a6744f..f7f04c5 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -35,26 +35,24 @@ def read_input_file(filename):
             user_name = df["user_name"].iloc[i]
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
-                ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                ts_sheet_name, ts_range = v.replace("=", "").rsplit("!", 1)
+                # the name of the sheet is quoted if it contains special characters
+                if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
+                    ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
                 cr = CellRange(ts_range)
-                if cr.size["columns"] == 1:
-                    ts = json.dumps(
-                        [
-                            wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
-                            for c in cr.cells
-                        ]
-                    )
-                elif cr.size["columns"] == 2:
-                    ts = pd.DataFrame(
-                        [
-                            [
-                                wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
-                                for c in col
-                            ]
-                            for col in cr.cols
-                        ]
-                    ).T
-                    ts = ts.to_json(orient="values")
+                if cr.size["columns"] in (1, 2):
+                    # the values are in the last column, which is preceded by the timestamps if there are two columns
+                    ts = [
+                        wb[ts_sheet_name].cell(row=r, column=cr.max_col).value
+                        for r in range(cr.min_row, cr.max_row + 1)
+                    ]
+                    if not all(isinstance(val, (int, float)) for val in ts):
+                        raise (
+                            ValueError(
+                                f"The provided range for the power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' contains cells which are not numbers (range {ts_range} of sheet '{ts_sheet_name}')\n{POSSIBLE_FORMATS}"
+                            )
+                        )
+                    ts = json.dumps(ts)
                 else:
                     raise (
                         ValueError(
@@ -71,7 +69,7 @@ def read_input_file(filename):
             else:
                 try:
                     ts = json.loads(v)
-                    if len(ts) != 366:
+                    if not isinstance(ts, list) or len(ts) != 366:
                         raise (
                             ValueError(
                                 f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
-- 
2.43.0


From efbc4f90a2493701ec2ff37ef57c8792f4e90f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 20/43] fix: optional cells left empty in a spreadsheet take
 the default values

---
 ramp/core/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f070a47..55076bd 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -615,6 +615,10 @@ class UseCase:
         """
 
         df = read_input_file(filename=filename)
+        # optional column, the cells left empty take the default value
+        if "user_preference" not in df:
+            df["user_preference"] = 0
+        df["user_preference"] = df["user_preference"].fillna(0)
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
@@ -633,7 +637,7 @@ class UseCase:
                 )
 
             # create user
-            user = User(user_name, num_users, user_preference)
+            user = User(user_name, int(num_users), int(user_preference))
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
             for row in user_df.loc[
                 :, ~user_df.columns.isin(["user_name", "num_users", "user_preference"])
@@ -641,8 +645,13 @@ class UseCase:
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
-                        appliance_parameters[k] = row[k]
+                    # a cell left empty takes the default value
+                    if k in row and not pd.isna(row[k]):
+                        val = row[k]
+                        # the values of a column with empty cells are read as floats
+                        if k != "power" and isinstance(val, float) and val.is_integer():
+                            val = int(val)
+                        appliance_parameters[k] = val
 
                 # assign windows arguments
                 for k in WINDOWS_PARAMETERS:
-- 
2.43.0


From a3e9d0de83bcd5981c8b8d0f38932795da9a844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 21/43] fix: appliances of the same constant power are equal
 whatever the number of days of their usecase

---
 ramp/core/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 55076bd..03fe5bc 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1376,12 +1376,15 @@ class Appliance:
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
-                answer = np.append(
-                    answer,
-                    np.array_equal(
-                        getattr(self, attribute), getattr(other_appliance, attribute)
-                    ),
-                )
+                value = getattr(self, attribute)
+                other_value = getattr(other_appliance, attribute)
+                if attribute == "power" and len(value) != len(other_value):
+                    # the number of values of a constant power depends on the number of days of the usecase
+                    value, other_value = np.unique(value), np.unique(other_value)
+                    equal = len(value) == 1 and np.array_equal(value, other_value)
+                else:
+                    equal = np.array_equal(value, other_value)
+                answer = np.append(answer, equal)
             elif (
                 hasattr(self, attribute) is False
                 and hasattr(other_appliance, attribute) is False
-- 
2.43.0


From 54dab213773618d4e4ec43263ae088f8b679b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 22/43] fix: a refused declaration of windows, users or
 appliances changes nothing

---
 ramp/core/core.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 03fe5bc..bc71069 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -188,6 +188,12 @@ class UseCase:
                 self.collect_appliances_from_users()
                 self.peak_time_range = self.calc_peak_time_range()
         elif isinstance(user, list):
+            for u in user:
+                # no user is added if one of them is not valid
+                if not isinstance(u, (User, list)):
+                    raise InvalidType(
+                        f"{type(u)} is not valid. Only 'User' type is acceptable."
+                    )
             for u in user:
                 self.add_user(u)
         else:
@@ -744,6 +750,7 @@ appliances: no appliances assigned to the user.
                 raise TypeError(
                     f"You are trying to add an object of type {type(app)} as an appliance to the user {self.user_name}"
                 )
+        for app in appliances:
             if app not in self.App_list:
                 if app.name == "":
                     app.name = f"appliance_{len(self.App_list) + 1}"
@@ -1453,35 +1460,35 @@ class Appliance:
                     "No windows is declared, default window of 24 hours is selected"
                 )
             )
-            self.window_1 = np.array([0, 1440])
-        else:
-            self.window_1 = window_1
+            window_1 = np.array([0, 1440])
 
         if window_2 is None:
             if self.num_windows >= 2:
                 raise InvalidWindow(
                     "Windows 2 is not provided although 2 windows were declared"
                 )
-        else:
-            self.window_2 = window_2
+            window_2 = self.window_2
 
         if window_3 is None:
             if self.num_windows == 3:
                 raise InvalidWindow(
                     "Windows 3 is not provided although 3 windows were declared"
                 )
-        else:
-            self.window_3 = window_3
+            window_3 = self.window_3
 
         # check that the time allocated by the windows is larger or equal to the func_time of the appliance
         window_time = 0
-        for i in range(1, self.num_windows + 1, 1):
-            window_time = window_time + np.diff(getattr(self, f"window_{i}"))[0]
+        for window in (window_1, window_2, window_3)[: self.num_windows]:
+            window_time = window_time + np.diff(window)[0]
         if window_time < self.func_time:
             raise InvalidWindow(
                 f"The sum of all windows time intervals for the appliance '{self.name}' of user '{self.user.user_name}' is smaller than the time the appliance is supposed to be on ({window_time} < {self.func_time}). Please check your input file for typos."
             )
 
+        # the windows are valid and can be assigned
+        self.window_1 = window_1
+        self.window_2 = window_2
+        self.window_3 = window_3
         self.random_var_w = random_var_w
         self.daily_use = np.zeros(1440)  # create an empty daily use profile
         self.daily_use[self.window_1[0] : (self.window_1[1])] = np.full(
-- 
2.43.0


From ff919703cf94a515def2d4e2c3270aa2d7479a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 23/43] fix: check the power of appliances added to a user of
 an initialized usecase

---
 ramp/core/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index bc71069..877a5ff 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -750,6 +750,10 @@ appliances: no appliances assigned to the user.
                 raise TypeError(
                     f"You are trying to add an object of type {type(app)} as an appliance to the user {self.user_name}"
                 )
+        if self.usecase is not None and self.usecase.is_initialized is True:
+            # the appliances are used for all days of the usecase
+            for app in appliances:
+                app.check_power_values(self.usecase.num_days)
         for app in appliances:
             if app not in self.App_list:
                 if app.name == "":
-- 
2.43.0


From bc88c040fec328092bb70a93edb7ad5dc3ee87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 24/43] fix: the start of a window left empty in a spreadsheet
 takes the default value

---
 ramp/core/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 877a5ff..ef29b93 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -664,6 +664,9 @@ class UseCase:
                     if "window" in k:
                         w_start = row.get(k + "_start", np.NaN)
                         w_end = row.get(k + "_end", np.NaN)
+                        if np.isnan(w_start):
+                            # the default value of the start of a window is midnight
+                            w_start = 0
                         if not np.isnan(w_start) and not np.isnan(w_end):
                             appliance_parameters[k] = np.array(
                                 [w_start, w_end], dtype=np.intc
@@ -679,6 +682,9 @@ class UseCase:
                         if "cw" in k:
                             cw_start = row.get(k + "_start", np.NaN)
                             cw_end = row.get(k + "_end", np.NaN)
+                            if np.isnan(cw_start):
+                                # the default value of the start of a window is midnight
+                                cw_start = 0
                             if not np.isnan(cw_start) and not np.isnan(cw_end):
                                 appliance_parameters[k] = np.array(
                                     [cw_start, cw_end], dtype=np.intc
-- 
2.43.0


From 3872fbb706b2d0641e60a102babd76c5ab8a75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 25/43] fix: comparing an appliance with another kind of object
 does not fail

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ef29b93..4e53575 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1390,6 +1390,8 @@ class Appliance:
                 1. have the same attributes
                 2. all their attributes have the same value
         """
+        if not isinstance(other_appliance, Appliance):
+            return NotImplemented
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
-- 
2.43.0


From 945ae4121ee3957e65a88a6f77001873840dad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 26/43] fix: do not add an appliance with duty cycles to a user
 who already has it

---
 ramp/core/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4e53575..b4a756c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -850,7 +850,7 @@ appliances: no appliances assigned to the user.
         app = Appliance(self, **kwargs)
 
         if windows_args:
-            app.windows(**windows_args)
+            app._assign_windows(**windows_args)
         for i in duty_cycle_parameters:
             app.specific_cycle(i, **duty_cycle_parameters[i])
 
@@ -1465,6 +1465,15 @@ class Appliance:
                 window_3 = [40,55]
             )
         """
+        self._assign_windows(window_1, window_2, random_var_w, window_3)
+
+        # automatically appends the appliance to the user's appliance list
+        self.user._add_appliance_instance(self)
+
+    def _assign_windows(
+        self, window_1=None, window_2=None, random_var_w=0, window_3=None
+    ):
+        """Checks and assigns the functioning windows, see method `windows`"""
 
         if window_1 is None:
             warnings.warn(
@@ -1523,9 +1532,6 @@ class Appliance:
             random_var_w * np.diff(self.window_3)[0]
         )  # same as above
 
-        # automatically appends the appliance to the user's appliance list
-        self.user._add_appliance_instance(self)
-
         if self.fixed_cycle == 1:
             self.cw11 = self.window_1
             self.cw12 = self.window_2
-- 
2.43.0


From 9b4169d8065d743d12c098abe3f00f6e3beb85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 27/43] fix: legacy declarations of appliances give the user as
 first argument

---
 ramp/core/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index b4a756c..504e69e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -985,7 +985,18 @@ appliances: no appliances assigned to the user.
         """
         return self.save()
 
-    def Appliance(
+    def Appliance(self, *args, **kwargs):
+        """Back-compatibility with legacy code, where the user is also the first argument
+
+        Notes
+        ------
+        refer to Appliance class docs
+        """
+        if len(args) > 0 and isinstance(args[0], User):
+            args = args[1:]
+        return self._add_legacy_appliance(*args, **kwargs)
+
+    def _add_legacy_appliance(
         self,
         number=1,
         power=0,
-- 
2.43.0


From b821f3a7ec173ad4e140b1037350fd4f3a55e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 28/43] fix: convert a python input file given by any path,
 also when converted before

---
 ramp/ramp_convert_old_input_files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..4e44211 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -87,15 +87,16 @@ def convert_old_user_input_file(
         with open(fname_path, "a") as fp:
             fp.write(convert_names)
 
-    fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
+    fname = os.path.splitext(os.path.basename(fname_path))[0]
 
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
-    output_fname = os.path.join(output_path, output_fname)
+    output_fname = os.path.join(output_path, fname + suffix)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    spec = importlib.util.spec_from_file_location(fname, os.path.abspath(fname_path))
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From a852bddaeca846fbd6283819c6bb8b32d88f4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 29/43] fix: adapt all the imports of a converted python input
 file

---
 ramp/ramp_convert_old_input_files.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 4e44211..36e1fc6 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -72,10 +72,8 @@ def convert_old_user_input_file(
         for i, l in enumerate(lines):
             if "from core import" in l:
                 line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
+                # Change import statement by explicitly naming the full package path
+                lines[i] = l.replace("from core import", "from ramp.core.core import")
 
     # Modify import statement in file
     if line_to_change != -1:
-- 
2.43.0


From 1d80bde7e7d27b422a2ff39c19811f60d9142b2b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 30/43] fix: a single row or column can be selected from the
 results

---
 ramp/post_process/post_process.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..cb4e66e 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -533,7 +533,14 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.loc[index, columns])
+        if isinstance(columns, str):
+            columns = [columns]
+        answer = self.DataFrame.loc[index, columns]
+        if isinstance(answer, pd.Series):
+            # a single row was selected
+            answer = answer.to_frame().T
+
+        return Plot(answer)
 
     def iloc(self, index=slice(None), columns=slice(None)):
         """iloc method to filter the data based on position index
@@ -551,7 +558,14 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.iloc[index, columns])
+        if isinstance(columns, int):
+            columns = [columns]
+        answer = self.DataFrame.iloc[index, columns]
+        if isinstance(answer, pd.Series):
+            # a single row was selected
+            answer = answer.to_frame().T
+
+        return Plot(answer)
 
     def head(self, var):
         """returns the top var numbers of data
-- 
2.43.0


From ac04be0258fe2312222619df1041e1bd0ebb55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 31/43] fix: the columns of a shadow plot can be given as a
 list

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index cb4e66e..028f39a 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -319,7 +319,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From 5c99115d8f89dbbe236e8e5e78c7ac395142be42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 32/43] fix: refuse results without time index

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 028f39a..2863e4a 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -595,7 +595,7 @@ class Plot:
         if not isinstance(other, pd.DataFrame):
             raise ValueError("only pd.DataFrame object is allowed")
 
-        if not (isinstance, other.index, pd.DatetimeIndex):
+        if not isinstance(other.index, pd.DatetimeIndex):
             raise ValueError("a valid dataframe shoud has only a pd.DatatimeIndex")
         if check_index:
             if not self.index.equals(other.index):
-- 
2.43.0


From 5a5482aa033ee6e811429fdaf0ea6e8a37d5c39f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 33/43] fix: read the results of a csv file

---
 ramp/post_process/post_process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 2863e4a..a9ec42f 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -157,7 +157,12 @@ class Plot:
 
         if file.endswith(".csv"):
             df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
+                file,
+                index_col=0,
+                header=0,
+                sep=sep,
+                parse_dates=index is None,
+                float_precision="round_trip",
             )
 
         elif file.endswith(".xlsx"):
-- 
2.43.0


From 2e5f379f9c21ab3f40d9a836d11246a80cb4286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 34/43] fix: run a python input file whose path contains spaces

---
 ramp/ramp_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..bdef7c7 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -21,6 +21,7 @@ See the License for the specific language governing permissions and limitations
 under the License.
 """
 import os
+import subprocess
 
 # %% Import required modules
 
@@ -61,7 +62,7 @@ def run_usecase(
             return Profiles_list
     elif fname.endswith(".py"):
         if os.path.exists(fname):
-            os.system(f"python {fname}")
+            subprocess.run(["python", fname])
         else:
             raise FileNotFoundError(f"{fname} is not an existing file")
     else:
-- 
2.43.0


From a6643a09e79e1a750dee156dfc7f61627b58217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 35/43] fix: refuse a single output file for several input
 files, only the last result was kept

---
 ramp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..bfc7296 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -160,7 +160,7 @@ def main():
             num_days = [None] * len(fnames)
 
         if month_files is False:
-            if len(ofnames) == 1:
+            if ofnames == [None]:
                 ofnames = ofnames * len(fnames)
             elif len(fnames) != len(ofnames):
                 raise ValueError(
-- 
2.43.0


From b6f9b0223173af1c6254d0323dbe5262af60b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 36/43] fix: sort the monthly input files by the number in
 their names only

---
 ramp/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index bfc7296..fd3a112 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -126,7 +126,11 @@ def main():
                     for f in os.listdir(fnames[0])
                     if f.endswith(ext)
                 ]
-                fnames.sort(key=lambda f: int("".join(filter(str.isdigit, f))))
+                fnames.sort(
+                    key=lambda f: int(
+                        "".join(filter(str.isdigit, os.path.basename(f)))
+                    )
+                )
 
                 if len(fnames) == 12:
                     print(
-- 
2.43.0


From 01940fa7c6ec317486cca0bd987a084d436ef128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 37/43] fix: load a user without name

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 504e69e..beea3ef 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -625,6 +625,8 @@ class UseCase:
         if "user_preference" not in df:
             df["user_preference"] = 0
         df["user_preference"] = df["user_preference"].fillna(0)
+        # the empty name of a user is read as an empty cell
+        df["user_name"] = df["user_name"].fillna("")
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
-- 
2.43.0


From 1676c36083d9df672c8005468bcda4f5a3684d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 38/43] fix: generate the profiles of the days given to
 generate_daily_load_profiles

---
 ramp/core/core.py | 58 ++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index beea3ef..30f52e9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -442,22 +442,24 @@ class UseCase:
             for case in cases:
                 profiles = self.generate_daily_load_profiles(days=days, flat=True)
                 results[f"case {case}"] = pd.Series(
-                    index=self.datetimeindex, data=profiles
+                    index=(
+                        self.datetimeindex
+                        if days is None
+                        else pd.DatetimeIndex(days).repeat(1440)
+                        + pd.to_timedelta(np.tile(np.arange(1440), len(days)), "min")
+                    ),
+                    data=profiles,
                 )
             answer = Plot(pd.concat(results, axis=1))
         else:
-            if self.days is None:
-                if days is not None:
-                    self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
-                else:
-                    raise ValueError(
-                        "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
-                    )
+            days = self._days_to_simulate(days)
             if self.parallel_processing is True:
-                daily_profiles = self.generate_daily_load_profiles_parallel(flat=False)
+                daily_profiles = self.generate_daily_load_profiles_parallel(
+                    days=days, flat=False
+                )
             else:
-                daily_profiles = np.zeros((self.num_days, 1440))
-                for day_idx, day in enumerate(self.days):
+                daily_profiles = np.zeros((len(days), 1440))
+                for day_idx, day in enumerate(days):
                     # initialise an empty daily profile (or profile load)
                     # that will be filled with the sum of the daily profiles of each User instance
                     usecase_load = np.zeros(1440)
@@ -473,14 +475,30 @@ class UseCase:
                     # screen update about progress of computation
                     if verbose is True:
                         # logging.info
-                        print("Day", day_idx + 1, "/", self.num_days, "completed")
+                        print("Day", day_idx + 1, "/", len(days), "completed")
 
             if flat is True:
-                answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
+                answer = daily_profiles.reshape(1, len(days) * 1440).squeeze()
             else:
                 answer = daily_profiles
         return answer
 
+    def _days_to_simulate(self, days=None):
+        """Return the days for which to generate profiles, self.days if none are provided"""
+        if days is None:
+            if self.days is None:
+                raise ValueError(
+                    "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
+                )
+            return self.days
+        days = pd.DatetimeIndex(days)
+        for user in self.users:
+            for app in user.App_list:
+                app.check_power_values(len(days))
+        if self.peak_time_range is None:
+            self.peak_time_range = self.calc_peak_time_range()
+        return days
+
     def generate_daily_load_profiles_parallel(self, days=None, flat=True):
         """
         Generate a daily profile for each of the days in a parallel process
@@ -496,18 +514,12 @@ class UseCase:
         -------
         daily_profiles: numpy array
         """
-        if self.days is None:
-            if days is not None:
-                self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
-            else:
-                raise ValueError(
-                    "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
-                )
+        days = self._days_to_simulate(days)
 
         max_parallel_processes = multiprocessing.cpu_count()
         tasks = []
         t = 0
-        for day_idx, day in enumerate(self.days):
+        for day_idx, day in enumerate(days):
             day_type = get_day_type(day)
             for user in self.users:
                 for _ in range(user.num_users):
@@ -544,7 +556,7 @@ class UseCase:
                         daily_profiles_dict[prof_i] = [daily_load]
                     pbar.update()
 
-            daily_profiles = np.zeros((self.num_days, 1440))
+            daily_profiles = np.zeros((len(days), 1440))
 
             for day_idx in daily_profiles_dict:
                 daily_profiles[day_idx, :] = np.vstack(
@@ -552,7 +564,7 @@ class UseCase:
                 ).sum(axis=0)
 
         if flat is True:
-            answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
+            answer = daily_profiles.reshape(1, len(days) * 1440).squeeze()
         else:
             answer = daily_profiles
 
-- 
2.43.0


From 55201628abc3e4f14e5ca956c5f1fa396552d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 39/43] fix: add no user of a list if the power series of one
 of them is too short

---
 ramp/core/core.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 30f52e9..3937cfe 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -173,15 +173,8 @@ class UseCase:
             any type rather than User will raise the error.
         """
         if isinstance(user, User):
-            previous_usecase = user.usecase
+            self._check_user_power_values(user)
             user.usecase = self
-            if self.is_initialized is True:
-                try:
-                    for app in user.App_list:
-                        app.check_power_values(self.num_days)
-                except ValueError:
-                    user.usecase = previous_usecase
-                    raise
             self.users.append(user)
             if self.is_initialized is True:
                 # the peak time range depends on all users of the usecase
@@ -194,6 +187,9 @@ class UseCase:
                     raise InvalidType(
                         f"{type(u)} is not valid. Only 'User' type is acceptable."
                     )
+            for u in user:
+                if isinstance(u, User):
+                    self._check_user_power_values(u)
             for u in user:
                 self.add_user(u)
         else:
@@ -201,6 +197,17 @@ class UseCase:
                 f"{type(user)} is not valid. Only 'User' type is acceptable."
             )
 
+    def _check_user_power_values(self, user):
+        """Verify that a user about to be added has long enough power data, if the usecase is initialized"""
+        if self.is_initialized is True:
+            previous_usecase = user.usecase
+            user.usecase = self
+            try:
+                for app in user.App_list:
+                    app.check_power_values(self.num_days)
+            finally:
+                user.usecase = previous_usecase
+
     def collect_appliances_from_users(self):
         """Gather all appliances from a UseCase instance users into self.appliances attribute"""
         appliances = []
-- 
2.43.0


From f766830cd43c707e4b3e1f43e273d234fa5027c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 40/43] fix: a spreadsheet which is refused leaves the use case
 unchanged

---
 ramp/core/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 3937cfe..76c3363 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -646,6 +646,7 @@ class UseCase:
         df["user_preference"] = df["user_preference"].fillna(0)
         # the empty name of a user is read as an empty cell
         df["user_name"] = df["user_name"].fillna("")
+        users = []
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
@@ -717,8 +718,10 @@ class UseCase:
 
                 user.add_appliance(**appliance_parameters)
 
-            # add user with all its appliances to usecase
-            self.add_user(user)
+            users.append(user)
+
+        # add all users with their appliances to usecase
+        self.add_user(users)
 
         self.collect_appliances_from_users()
 
-- 
2.43.0


From ac015bb034695db3ff4f8d80de18afceb943c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 41/43] fix: the maximum profile of a user without appliances
 has one value per minute

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 76c3363..9048bcc 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -890,7 +890,7 @@ appliances: no appliances assigned to the user.
         --------
         np.array
         """
-        user_max_profile = np.zeros(1440)
+        user_max_profile = np.zeros((1, 1440))
         for appliance in self.App_list:
             # Calculate windows curve, i.e. the theoretical maximum curve that can be obtained, for each app, by switching-on always all the 'n' apps altogether in any time-step of the functioning windows
             app_max_profile = (
-- 
2.43.0


From 1e300fc3d8cd682d81600a9ece133ff605f2ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 42/43] fix: accept power timeseries in sheets whose name
 contains an equal sign

---
 ramp/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index f7f04c5..0d84b63 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -35,7 +35,7 @@ def read_input_file(filename):
             user_name = df["user_name"].iloc[i]
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
-                ts_sheet_name, ts_range = v.replace("=", "").rsplit("!", 1)
+                ts_sheet_name, ts_range = v.replace("=", "", 1).rsplit("!", 1)
                 # the name of the sheet is quoted if it contains special characters
                 if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
                     ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
-- 
2.43.0


From dfbba538ef9760ba80691a5397688cca012af518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 43/43] fix: refuse whole columns as power timeseries with the
 documented error

---
 ramp/core/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 0d84b63..6f6385d 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -39,7 +39,15 @@ def read_input_file(filename):
                 # the name of the sheet is quoted if it contains special characters
                 if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
                     ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
-                cr = CellRange(ts_range)
+                try:
+                    cr = CellRange(ts_range)
+                except TypeError:
+                    # whole columns or rows
+                    raise (
+                        ValueError(
+                            f"The provided range for the power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' is not a range of cells (range {ts_range} of sheet '{ts_sheet_name}')\n{POSSIBLE_FORMATS}"
+                        )
+                    )
                 if cr.size["columns"] in (1, 2):
                     # the values are in the last column, which is preceded by the timestamps if there are two columns
                     ts = [
-- 
2.43.0

