From 791bf0f1b0a956d71bc47d435f859add5021e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 01/25] fix: do not crash on the walking time of a transfer
 between stops without coordinates

---
 transitfeed/transfer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/transfer.py b/transitfeed/transfer.py
index ddcd8b2..52b7721 100755
--- a/transitfeed/transfer.py
+++ b/transitfeed/transfer.py
@@ -154,6 +154,10 @@ class Transfer(GtfsObjectBase):
       return
 
     distance = self.GetTransferDistance()
+    if distance is None:
+      # At least one of the stops has no coordinates.
+      return
+
     # If min_transfer_time + 120s isn't enough for someone walking very fast
     # (2m/s) then issue a warning.
     #
-- 
2.43.0


From 92f699c053fbe5f6d462c04ef8722e774322ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 02/25] fix: Trip.AddHeadwayPeriodObject uses its argument

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ae9b374..8c536d3 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -381,7 +381,7 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequencyObject(frequency, problem_reporter)
+    self.AddFrequencyObject(headway_period, problem_reporter)
 
   def AddFrequencyObject(self, frequency, problem_reporter):
     """Add a Frequency object to this trip's list of Frequencies."""
-- 
2.43.0


From 68ed235ce37e37cab0c9224c4f4cee1159396dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 03/25] fix: Trip.AddHeadwayPeriod passes the reporter as the
 reporter, not as exact_times

---
 transitfeed/trip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 8c536d3..5c8e53f 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -398,7 +398,8 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequency(start_time, end_time, headway_secs, problem_reporter)
+    self.AddFrequency(start_time, end_time, headway_secs,
+                      problem_reporter=problem_reporter)
 
   def AddFrequency(self, start_time, end_time, headway_secs, exact_times=0,
       problem_reporter=problems_module.default_problem_reporter):
-- 
2.43.0


From 63c35d6707afcceb076de77eb1abac7ef9ff5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 04/25] fix: do not store a frequency whose negative start_time
 was reported

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 5c8e53f..9609c8c 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -432,6 +432,7 @@ class Trip(GtfsObjectBase):
         return
     elif start_time < 0:
       problem_reporter.InvalidValue('start_time', start_time)
+      return
 
     if end_time == None or end_time == '':
       problem_reporter.MissingValue('end_time')
-- 
2.43.0


From 5b64e4ff6f855903179b83d25da0f28bcb4a16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 05/25] fix: SortListOfTripByTime raised NameError

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 9609c8c..76f76c8 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -766,4 +766,4 @@ class Trip(GtfsObjectBase):
 
 
 def SortListOfTripByTime(trips):
-  trips.sort(key=GetStartTime)
+  trips.sort(key=lambda trip: trip.GetStartTime())
-- 
2.43.0


From 42f023b1161c0a85ef961689890e2a18926637b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 06/25] fix: Frequency.Validate raised NameError

---
 transitfeed/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/frequency.py b/transitfeed/frequency.py
index f523a37..81ae7e4 100644
--- a/transitfeed/frequency.py
+++ b/transitfeed/frequency.py
@@ -78,7 +78,7 @@ class Frequency(GtfsObjectBase):
       return
 
     def Validate(self, problems=None):
-      returns
+      return
 
     def AddToSchedule(self, schedule=None, problems=None):
       if schedule is None:
-- 
2.43.0


From bc01c63cd9436a188b64c0948d3c95803b73f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 07/25] fix: a feed_info with a start date but no end date was
 reported as reversed

---
 transitfeed/feedinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index a936d9d..d70031b 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -51,6 +51,8 @@ class FeedInfo(transitfeed.GtfsObjectBase):
                                                 'feed_end_date', problems)
 
     if (start_date_valid and end_date_valid and
+        not transitfeed.IsEmpty(self.feed_start_date) and
+        not transitfeed.IsEmpty(self.feed_end_date) and
         self.feed_end_date < self.feed_start_date):
         problems.InvalidValue('feed_end_date', self.feed_end_date,
                               'feed_end_date %s is earlier than '
-- 
2.43.0


From 05f5d8f0447eb353a71b7d00a03a3dba26b82e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 08/25] fix: write zero values of stop_times.txt
 (stop_sequence, timepoint, ...) instead of blanks

---
 transitfeed/stoptime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 21bdea4..b3eb484 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -177,7 +177,11 @@ class StopTime(object):
       else:
         # Since we'll be writting to an output file, we want empty values to be
         # outputted as an empty string
-        result.append(getattr(self, fn) or '' )
+        # (but 0 is a value).
+        value = getattr(self, fn)
+        if value is None:
+          value = ''
+        result.append(value)
     return tuple(result)
 
   def GetSqlValuesTuple(self, trip_id):
-- 
2.43.0


From 18624b4e143651052d4ab2b798e78a564547e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 09/25] fix: check the distance to the shape of stops on the
 equator or prime meridian

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 76f76c8..9632fe3 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -676,7 +676,7 @@ class Trip(GtfsObjectBase):
             pt = shape.GetPointWithDistanceTraveled(st.shape_dist_traveled)
             if pt:
               stop = self._schedule.GetStop(st.stop_id)
-              if stop.stop_lat and stop.stop_lon:
+              if stop.stop_lat is not None and stop.stop_lon is not None:
                 distance = util.ApproximateDistance(stop.stop_lat,
                                                     stop.stop_lon,
                                                     pt[0], pt[1])
-- 
2.43.0


From b030a62ee54bb558f11635833de24369dd43dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 10/25] fix: interpolate times of stops that are all at the
 same place

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 9632fe3..61bb49c 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -208,7 +208,11 @@ class Trip(GtfsObjectBase):
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
         distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
-        distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        if distance_between_timepoints > 0:
+          distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        else:
+          # All stops since the last timepoint are at the same place.
+          distance_percent = 0
         total_time = next_timepoint.GetTimeSecs() - cur_timepoint.GetTimeSecs()
         time_estimate = distance_percent * total_time + cur_timepoint.GetTimeSecs()
         rv.append( (int(round(time_estimate)), st, False) )
-- 
2.43.0


From fa4d77d0324955450a9206c1488dbcf19da3a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 11/25] fix: Shape.ClearPoints left the distances and sequence
 numbers of removed points behind

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 35cfb20..4fe1379 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -97,6 +97,9 @@ class Shape(GtfsFactoryUser):
 
   def ClearPoints(self):
     self.points = []
+    self.distance = []
+    self.sequence = []
+    self.max_distance = 0
 
   def __eq__(self, other):
     if not other:
-- 
2.43.0


From 93220052d6ee8b616d107c9006a8674f1e117ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 12/25] fix: adding a shape point before one without
 shape_dist_traveled raised TypeError

---
 transitfeed/shape.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 4fe1379..52e54ea 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -69,6 +69,7 @@ class Shape(GtfsFactoryUser):
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
       if (index != len(self.sequence) and
+          self.distance[index] is not None and
           shapepoint.shape_dist_traveled > self.distance[index]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
-- 
2.43.0


From a34821fb54b1b56b21aa63f977d0b9142c3e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 13/25] fix: Schedule.AddFeedInfoObject(validate=True) raised
 AttributeError

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 69e8c30..ee83a04 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -544,7 +544,7 @@ class Schedule(object):
     feed_info._schedule = weakref.proxy(self)
 
     if validate:
-      feed_info.Validate(problem_reporter)
+      feed_info.ValidateBeforeAdd(problem_reporter)
     self.AddTableColumns('feed_info', feed_info._ColumnNames())
     self.feed_info = feed_info
 
-- 
2.43.0


From 5d03a05724b75d3314de7c5a09e849867d4796cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 14/25] fix: AddTransferObject ignored the problem reporter it
 was given

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index ee83a04..f956f6d 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -556,9 +556,9 @@ class Schedule(object):
     transfer_id = transfer._ID()
 
     if transfer_id in self._transfers:
-      self.problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
-                                        transfer_id,
-                                        type=problems_module.TYPE_WARNING)
+      problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
+                                   transfer_id,
+                                   type=problems_module.TYPE_WARNING)
       # Duplicates are still added, while not prohibited by GTFS.
 
     transfer._schedule = weakref.proxy(self)  # See weakref comment at top
-- 
2.43.0


From a91092efc779f69b284ea43c44803e213438d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 15/25] fix: date range origins looked at the wrong service
 period

The index of the earliest/latest range was taken in the list of periods with
dates but used in the list of all periods.
---
 transitfeed/schedule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index f956f6d..4303d6b 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -281,14 +281,15 @@ class Schedule(object):
     """
     period_list = self.GetServicePeriodList()
     ranges = [period.GetDateRange() for period in period_list]
-    starts = filter(lambda x: x, [item[0] for item in ranges])
-    ends = filter(lambda x: x, [item[1] for item in ranges])
+    # keep the index in period_list of each period which has dates
+    starts = [(item[0], index) for index, item in enumerate(ranges) if item[0]]
+    ends = [(item[1], index) for index, item in enumerate(ranges) if item[1]]
 
     if not starts or not ends:
       return (None, None, None, None)
 
-    minvalue, minindex = min(itertools.izip(starts, itertools.count()))
-    maxvalue, maxindex = max(itertools.izip(ends, itertools.count()))
+    minvalue, minindex = min(starts)
+    maxvalue, maxindex = max(ends)
 
     minreason = (period_list[minindex].HasDateExceptionOn(minvalue) and
                  "earliest service exception date in calendar_dates.txt" or
-- 
2.43.0


From f33ce358738fa562a9caef124da58964158122be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 16/25] fix: an unknown service id stopped the check of all
 other block trips

---
 transitfeed/schedule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 4303d6b..37290f2 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1250,14 +1250,14 @@ class Schedule(object):
             # full service period comparison
             if service_id_pair_key not in service_period_overlap_cache:
               
-              # If the trip references an unknown service id, then we bail,
-              # since we can't effectively determine block overlap and an
+              # If the trip references an unknown service id, then we skip
+              # the pair, since we can't effectively determine block overlap and an
               # error will have already been registered for the missing
               # service id.
               if trip_a.service_id not in self.service_periods:
-                return
+                continue
               if trip_b.service_id not in self.service_periods:
-                return
+                continue
 
               service_period_a = self.GetServicePeriod(trip_a.service_id)
               service_period_b = self.GetServicePeriod(trip_b.service_id)
-- 
2.43.0


From e253cc98380cdbc19edc1a5399ff61cfe58f87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:04 +0000
Subject: [PATCH 17/25] fix: cutting calendars at a date broke periods without
 start and end dates

---
 merge.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 0991096..c99e840 100755
--- a/merge.py
+++ b/merge.py
@@ -1183,8 +1183,11 @@ class ServicePeriodMerger(DataSetMerger):
         start: The start date as a string in YYYYMMDD format.
         end: The end date as a string in YYYYMMDD format.
       """
-      service_period.start_date = max(service_period.start_date, start)
-      service_period.end_date = min(service_period.end_date, end)
+      # Both are None when the period is defined by calendar_dates.txt only.
+      if service_period.start_date is not None:
+        service_period.start_date = max(service_period.start_date, start)
+      if service_period.end_date is not None:
+        service_period.end_date = min(service_period.end_date, end)
       dates_to_delete = []
       for k in service_period.date_exceptions:
         if (k < start) or (k > end):
-- 
2.43.0


From 93b5caef5e1643e6676849220c75e2edaceca20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:21 +0000
Subject: [PATCH 18/25] fix: check stops on the equator or the prime meridian
 for being too close

ValidateNearbyStops left out every stop whose latitude or longitude is 0.
---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 37290f2..effd9d7 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1030,7 +1030,8 @@ class Schedule(object):
     # each pair of stations within 2 meters latitude of each other. This avoids
     # doing n^2 comparisons in the average case and doesn't need a spatial
     # index.
-    sorted_stops = filter(lambda s: s.stop_lat and s.stop_lon,
+    sorted_stops = filter(lambda s: not (util.IsEmpty(s.stop_lat) or
+                                         util.IsEmpty(s.stop_lon)),
                           self.GetStopList())
     sorted_stops.sort(
         key=(lambda x: [x.stop_lat, x.stop_lon, getattr(x, 'stop_id', None)]))
-- 
2.43.0


From ba702c37e7d50846aa51c70903b0fd0f4e2c2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 19/25] fix: report a stop too far from its shape with the file
 context in force

StopTooFarFromShapeWithDistTraveled was the only report that left it out.
---
 transitfeed/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 98e507b..d593543 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -234,7 +234,8 @@ class ProblemReporter(object):
     e = StopTooFarFromShapeWithDistTraveled(
         trip_id=trip_id, stop_name=stop_name, stop_id=stop_id,
         shape_dist_traveled=shape_dist_traveled, shape_id=shape_id,
-        distance=distance, max_distance=max_distance, type=type)
+        distance=distance, max_distance=max_distance, context=None,
+        context2=self._context, type=type)
     self.AddToAccumulator(e)
 
   def ExpirationDate(self, expiration, expiration_origin_file, context=None):
-- 
2.43.0


From 84945df6257817f2b01c1a6c31a20c80c2a566dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:30 +0000
Subject: [PATCH 20/25] fix: a skipped row no longer lends its context to later
 problems

---
 transitfeed/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 7679ceb..47eed63 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -418,6 +418,7 @@ class Loader:
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
+            self._problems.ClearContext()
             continue
           instance.AddToSchedule(self._schedule, self._problems)
           instance.ValidateAfterAdd(self._problems)
@@ -508,6 +509,7 @@ class Loader:
 
       shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
       if not shapepoint.ParseAttributes(self._problems):
+        self._problems.ClearContext()
         continue
 
       if shapepoint.shape_id in shapes:
@@ -543,6 +545,7 @@ class Loader:
       except (TypeError, ValueError):
         self._problems.InvalidValue('stop_sequence', stop_sequence,
                                     'This should be a number.')
+        self._problems.ClearContext()
         continue
       if sequence < 0:
         self._problems.InvalidValue('stop_sequence', sequence,
@@ -551,11 +554,13 @@ class Loader:
       if stop_id not in self._schedule.stops:
         self._problems.InvalidValue('stop_id', stop_id,
                                     'This value wasn\'t defined in stops.txt')
+        self._problems.ClearContext()
         continue
       stop = self._schedule.stops[stop_id]
       if trip_id not in self._schedule.trips:
         self._problems.InvalidValue('trip_id', trip_id,
                                     'This value wasn\'t defined in trips.txt')
+        self._problems.ClearContext()
         continue
       trip = self._schedule.trips[trip_id]
 
-- 
2.43.0


From 9089a97dd6f5eeb97e2ff98737300f282229b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:28 +0000
Subject: [PATCH 21/25] fix: only a byte order mark is dropped from the start
 of a file, not bytes it consists of

---
 transitfeed/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 47eed63..261893b 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -141,7 +141,8 @@ class Loader:
 
     # strip out any UTF-8 Byte Order Marker (otherwise it'll be
     # treated as part of the first column name, causing a mis-parse)
-    contents = contents.lstrip(codecs.BOM_UTF8)
+    while contents.startswith(codecs.BOM_UTF8):
+      contents = contents[len(codecs.BOM_UTF8):]
     return contents
 
   def _ReadCsvDict(self, file_name, cols, required, deprecated):
-- 
2.43.0


From acc398a2af64dda14a9dd56f79c97e0912787576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:57 +0000
Subject: [PATCH 22/25] fix: a line end inside of a quoted value is kept

---
 transitfeed/loader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 261893b..b88a028 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -160,7 +160,10 @@ class Loader:
     # after fields. Space after header fields can cause a serious parsing
     # problem, so warn. Space after body fields can cause a problem time,
     # integer and id fields; they will be validated at higher levels.
-    reader = csv.reader(eol_checker, skipinitialspace=True)
+    # A line end inside of a quoted value is part of the value, so csv.reader
+    # needs to see it.
+    reader = csv.reader((line + '\n' for line in eol_checker),
+                        skipinitialspace=True)
 
     raw_header = next(reader)
     header_occurrences = util.defaultdict(lambda: 0)
@@ -290,7 +293,8 @@ class Loader:
 
     eol_checker = util.EndOfLineChecker(StringIO(contents),
                                    file_name, self._problems)
-    reader = csv.reader(eol_checker)  # Use excel dialect
+    # Use excel dialect
+    reader = csv.reader(line + '\n' for line in eol_checker)
 
     header = next(reader)
     header = map(lambda x: x.strip(), header)  # trim any whitespace
-- 
2.43.0


From 080b4632b277416e408cd93ea8e6680bb2e78851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:25 +0000
Subject: [PATCH 23/25] fix: an invalid shape_dist_traveled no longer leaves a
 stop time without the attribute

---
 transitfeed/stoptime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index b3eb484..7da2b51 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -158,6 +158,7 @@ class StopTime(object):
         self.shape_dist_traveled = float(shape_dist_traveled)
       except ValueError:
         problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
+        self.shape_dist_traveled = None
 
     if stop_sequence is not None:
       self.stop_sequence = stop_sequence
-- 
2.43.0


From 80d8728551358581f841aa6a47c20b375788bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:16 +0000
Subject: [PATCH 24/25] fix: ShortestPath finds the shortest path when a better
 way to a node turns up late

---
 transitfeed/shapelib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 5d6003b..1b7cc69 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -475,6 +475,8 @@ class PolyGraph(PolyCollection):
     came_from = {} # Map to reconstruct optimal path once we're done.
     while open_set:
       (f_x, x) = heapq.heappop(open_heap)
+      if x in closed_set:
+        continue # Already evaluated, from an entry with a lower f(x).
       open_set.remove(x)
       if x == goal:
         return self._ReconstructPath(came_from, goal)
@@ -490,14 +492,14 @@ class PolyGraph(PolyCollection):
         tentative_g_score = g_scores[x] + edge.LengthMeters()
         tentative_is_better = False
         if y not in open_set:
-          h_y = y.GetDistanceMeters(goal)
-          f_y = tentative_g_score + h_y
           open_set.add(y)
-          heapq.heappush(open_heap, (f_y, y))
           tentative_is_better = True
         elif tentative_g_score < g_scores[y]:
           tentative_is_better = True
         if tentative_is_better:
+          h_y = y.GetDistanceMeters(goal)
+          f_y = tentative_g_score + h_y
+          heapq.heappush(open_heap, (f_y, y))
           came_from[y] = (x, edge)
           g_scores[y] = tentative_g_score
     return None
-- 
2.43.0


From 21e7ea8ea623457606633ece0718908d602bc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:37 +0000
Subject: [PATCH 25/25] fix: keep the best paths when more than keep_best_n are
 found, not the last

---
 transitfeed/shapelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 1b7cc69..45067ae 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -612,4 +612,4 @@ class PolyGraph(PolyCollection):
         if len(heap) < keep_best_n:
           heapq.heappush(heap, new_item)
         else:
-          heapq.heapreplace(heap, new_item)
+          heapq.heappushpop(heap, new_item)
-- 
2.43.0

