From d61eed54ab786e946b8088556a0f653136398288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 01/58] fix: Container.extend and item assignment must not keep
 items they reject

---
 src/ics/contentline/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..f9331e0 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -284,8 +284,10 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        for value in values:
+            self.check_items(value)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -304,8 +306,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From 529faea2bd71060f6e4fbe5033682c4f9158148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 02/58] fix: unset_all_day must use an existing precision

---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From bcbe9a34498767c967ace0096da7179926b47ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 03/58] fix: entries parsed without any date must have the
 default precision

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..97cea6f 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From 1cd49c95a62865e9b184cd61a702427b82b6c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 04/58] fix: serialize the extra params that were parsed from
 DTEND

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 97cea6f..017c415 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,7 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(ExtraParams, self.get_extra_params(component, value._end_name()))
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From 80f6f3868a711bfb80f89b1d7d1aec64edabbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 05/58] fix: Component.clone must keep extra and extra_params

---
 src/ics/component.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..d846ae9 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -1,3 +1,4 @@
+import copy
 from typing import ClassVar, Dict, List, Optional, Type, TypeVar, Union
 
 import attr
@@ -96,4 +97,8 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        clone = attr.evolve(self)
+        # extra and extra_params are no init parameters and thus ignored by evolve
+        object.__setattr__(clone, "extra", self.extra.clone())
+        object.__setattr__(clone, "extra_params", copy.deepcopy(self.extra_params))
+        return clone
-- 
2.43.0


From 2b588cfbae2cf8d110cc97018ba1b9becfb9b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 06/58] fix: interval predicates of todos raised AttributeError

---
 src/ics/timespan.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..f3661b9 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -602,10 +602,6 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        return tuple(reversed(super().cmp_tuple()))
-- 
2.43.0


From 527de367b854f2224c6f2e6a57cab8f435d406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 07/58] fix: cached timezone observances must not mix up both
 folds of a repeated hour

---
 src/ics/timezone/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..6296c85 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,17 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # pass fold explicitly, as it is ignored when comparing datetimes used as cache keys
+        return self._find_observance_cachable(
+            dt.replace(tzinfo=None, fold=0), getattr(dt, "fold", 0)
+        )
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From 9c2cd99dc0c6296002b43ca16cf4a2ed3943c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 08/58] fix: dates before the year 1000 must be serialized with
 four-digit years

---
 src/ics/valuetype/datetime.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..3149506 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -41,6 +41,12 @@ class DatetimeConverterMixin:
         utc_fmt="%Y%m%dT%H%M%SZ",
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
+        if "%Y" in nonutc_fmt:
+            # strftime("%Y") does not zero-pad years before 1000 on all platforms
+            year = f"{value.year:04d}"
+            utc_fmt = utc_fmt.replace("%Y", year)
+            nonutc_fmt = nonutc_fmt.replace("%Y", year)
+
         if is_utc(value):
             return value.strftime(utc_fmt)
 
@@ -180,7 +186,7 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        return f"{value.year:04d}" + value.strftime("%m%d")
 
     def parse(
         self,
-- 
2.43.0


From 44b6f043915123deb37a8ae6a4a7939854363476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 09/58] fix: TIME values in UTC must be serialized with Z
 suffix instead of TZID

---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 6296c85..f3d470b 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -60,7 +60,7 @@ def is_utc(value: datetime.tzinfo) -> bool:
 
 
 def is_utc(value):
-    if isinstance(value, datetime.datetime):
+    if isinstance(value, (datetime.datetime, datetime.time)):
         tz = value.tzinfo
     else:
         tz = value
-- 
2.43.0


From ad89ba891f81ca6eb7e74bc54720b52ca96c37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 10/58] fix: truncated DURATION values must raise ValueError
 instead of IndexError

---
 src/ics/valuetype/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 3149506..17c78cc 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -313,11 +313,11 @@ class DurationConverterClass(ValueConverter[timedelta]):
         SECS = {"S": 1, "M": 60, "H": 3600}
 
         sign, i = 1, 0
-        if value[i] in "-+":
+        if value[i : i + 1] in ("-", "+"):
             if value[i] == "-":
                 sign = -1
             i += 1
-        if value[i] != "P":
+        if value[i : i + 1] != "P":
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
@@ -327,9 +327,9 @@ class DurationConverterClass(ValueConverter[timedelta]):
                 if i == len(value):
                     break
             j = i
-            while value[j].isdigit():
+            while j < len(value) and value[j].isdigit():
                 j += 1
-            if i == j:
+            if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
             val = int(value[i:j])
             if value[j] in DAYS:
-- 
2.43.0


From 78ce467fc0dc45a0a96a7f1734f7fe62dd8bfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 11/58] fix: empty date values must raise ValueError instead of
 IndexError

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 17c78cc..b387185 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -79,7 +79,7 @@ class DatetimeConverterMixin:
             warnings.warn(
                 "DatetimeConverterMixin.parse called without available_tz dict in context"
             )
-        fixed_utc = value[-1].upper() == "Z"
+        fixed_utc = value[-1:].upper() == "Z"
 
         tr_value = value.translate(
             {ord("/"): "", ord("-"): "", ord("Z"): "", ord("z"): ""}
-- 
2.43.0


From ec580e34556005137786434b5224a8889dc3c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 12/58] fix: URIs containing a comma must not be split into
 multiple values

---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..a31727e 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,5 +1,5 @@
 import base64
-from typing import Type, Union
+from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
@@ -164,6 +164,10 @@ class URIConverterClass(ValueConverter[URL]):
     def python_type(self) -> Type[URL]:
         return URL
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # URIs may contain unescaped commas and none of the supported properties allows lists of URIs
+        yield values
+
     def parse(
         self,
         value: str,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..256f944 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Generic, Type, TypeVar, Union, cast
+from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
 from ics import Attendee, Organizer
@@ -56,6 +56,10 @@ class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
         params.clear()
         return val
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # the URI of the person may contain unescaped commas
+        yield values
+
     def serialize(
         self,
         value: Union[P, str],
-- 
2.43.0


From ac716557530c546111de2b2df99e2a76ac7f5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 13/58] fix: Timeline.start_after must handle a mix of floating
 and aware times

---
 src/ics/timeline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..a843a9b 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import (
     ceil_datetime_to_midnight,
@@ -112,9 +112,10 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            begin = CMP_NORMALIZATION.normalize(timespan.begin_time)
+            if begin is not None and begin > instant:
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From 065ce3dd4d522c1d99a7be32aa307ac6ce7e5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 14/58] fix: Timeline.now must not interpret the UTC time as
 local time

---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index a843a9b..94e0095 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -153,4 +153,4 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        return self.at(datetime.now().astimezone())
-- 
2.43.0


From deba02bc199ab27c5529286c1288dd93ffe59d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 15/58] fix: Timeline.on must not span two days for an instant
 in the last second of a day

---
 src/ics/timeline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 94e0095..2c3bdf8 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -8,7 +8,6 @@ from ics.event import Event
 from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import (
-    ceil_datetime_to_midnight,
     ensure_datetime,
     floor_datetime_to_midnight,
 )
@@ -134,7 +133,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + timedelta(days=1)
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 7be2a4441143f28b310ced1918500df9be78be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 16/58] fix: a normalized Timeline must not fail on all-day
 events

---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 2c3bdf8..a24a588 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -48,7 +48,7 @@ class Timeline:
             timespan = start
         else:
             timespan = Timespan(ensure_datetime(start), ensure_datetime(stop))
-        if self._normalization:
+        if self._normalization and not timespan.is_all_day():
             timespan = self._normalization.normalize(timespan)
         return timespan
 
-- 
2.43.0


From 399e213c09dd80a3505b9d17a370da71504cb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 17/58] fix: attribute validation must not reuse the cached
 fields of a parent class

---
 src/ics/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..dde447b 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,7 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            if "__attr_fields__" not in cls.__dict__:
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From d66b932306ccbabc1e0ff8d7e2dab20d78a01007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 18/58] fix: alarms with custom action must be serialized with
 exactly one ACTION

---
 src/ics/converter/types/various.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..fae4e5e 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -137,7 +137,8 @@ class AlarmMeta(ComponentMeta):
             )
             if c is not None
         ]
-        convs.append(AlarmActionConverter())
+        if not any("ACTION" in c.filter_ics_names for c in convs):
+            convs.append(AlarmActionConverter())
         return sort_converters(convs)
 
     def load_instance(
-- 
2.43.0


From 8a993b645906231cc515f3e53408f45bfbc84e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 19/58] fix: mixing floating and aware begin and end times must
 raise the intended ValueError

---
 src/ics/timespan.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index f3661b9..9e7b691 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -243,6 +243,16 @@ class Timespan:
 
             if self.end_time is not None:
                 validate_timeprecision(self.end_time, self._end_name())
+                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time may not have a timezone as the begin time doesn't either"
+                    )
+                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time must have a timezone as the begin time also does"
+                    )
                 if self.begin_time > self.end_time:
                     raise ValueError(
                         "begin time must be before " + self._end_name() + " time"
@@ -257,16 +267,6 @@ class Timespan:
                     raise ValueError(
                         "can't set duration together with " + self._end_name() + " time"
                     )
-                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time may not have a timezone as the begin time doesn't either"
-                    )
-                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time must have a timezone as the begin time also does"
-                    )
                 duration = self.get_effective_duration()
                 if duration and not timedelta_nearly_zero(
                     duration % TIMEDELTA_CACHE[self.precision]
-- 
2.43.0


From b26974e08771c2da2e502d2fbfa7d1a8b74d44c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 20/58] fix: converting a due without begin to a duration must
 not drop the due

---
 src/ics/timespan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 9e7b691..6666009 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -376,6 +376,8 @@ class Timespan:
         if current == target or (current_is_end and target_is_end):
             return self
         elif current_is_end and target == "duration":
+            if self.begin_time is None:
+                raise ValueError("can't convert end to duration without begin time")
             return self.replace(end_time=None, duration=self.get_effective_duration())
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
-- 
2.43.0


From ad0a702f01c13bfca149f0296231cc4364e4927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 21/58] fix: empty parameter values must be written quoted, so
 that they can be parsed again

---
 src/ics/contentline/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index f9331e0..057280f 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -177,7 +177,11 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    not pval  # an unquoted empty value might be rejected when parsing
+                    or isinstance(pval, QuotedParamValue)
+                    or re.search("[:;,]", pval)
+                ):
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From 66c294efdbceead8d04d7afa50e9162ddba70316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 22/58] fix: a deep clone of a container must not share lines
 of nested containers

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 057280f..9c8e1d0 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -266,7 +266,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From f32f7aa41c43be6d495b77b0272b60842d1615cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 23/58] fix: reading a PERIOD must accept date-times, not only
 dates

---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index b387185..5a64b07 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -380,6 +380,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
-- 
2.43.0


From 2dc5db2b5178a674c5f27e27734b874894350d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 24/58] fix: reading dates and times must reject spaces and
 non-ASCII digits

---
 src/ics/valuetype/datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 5a64b07..47e7f33 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -91,6 +91,9 @@ class DatetimeConverterMixin:
                 "couldn't find format matching %r (%s chars), tried %s"
                 % (tr_value, len(tr_value), self.FORMATS)
             )
+        if not re.fullmatch("[0-9Tt]*", tr_value):
+            # strptime would also accept spaces and non-ASCII digits
+            raise ValueError(f"invalid characters in value {value!r}")
         dt = datetime.strptime(tr_value, format)
 
         if fixed_utc:
-- 
2.43.0


From 6bfee0d230f90cafdb07fe1ee48f192d599811f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 25/58] fix: reading a DURATION must reject non-ASCII digits

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 47e7f33..02fe27f 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -330,7 +330,7 @@ class DurationConverterClass(ValueConverter[timedelta]):
                 if i == len(value):
                     break
             j = i
-            while j < len(value) and value[j].isdigit():
+            while j < len(value) and value[j] in "0123456789":
                 j += 1
             if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
-- 
2.43.0


From b12c400e499dc157813cd1fd4de24191f39499b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 26/58] fix: reading an out-of-range DURATION must raise
 ValueError

---
 src/ics/valuetype/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 02fe27f..6c5e754 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -344,7 +344,10 @@ class DurationConverterClass(ValueConverter[timedelta]):
             else:
                 raise ValueError(f"Error while parsing {value}")
             i = j + 1
-        return timedelta(sign * days, sign * secs)
+        try:
+            return timedelta(sign * days, sign * secs)
+        except OverflowError as e:
+            raise ValueError(f"duration {value} is out of range") from e
 
     def serialize(
         self,
-- 
2.43.0


From 86b53e6c4620fb50e156e33e9da19e7a30266bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 27/58] fix: reject events and todos with both DTEND and DUE

One of the two was dropped silently.
---
 src/ics/converter/types/timespan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 017c415..3ebd068 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -65,7 +65,8 @@ class TimespanConverter(AttributeConverter):
                 context[CONTEXT_BEGIN_TIME] = value
             else:
                 end_name = {"DTEND": "end", "DUE": "due"}[item.name]
-                context[CONTEXT_END_NAME] = end_name
+                if context.setdefault(CONTEXT_END_NAME, end_name) != end_name:
+                    raise ValueError("can't use both DTEND and DUE")
                 self.set_or_append_extra_params(component, params, name=end_name)
                 context[CONTEXT_END_TIME] = value
 
-- 
2.43.0


From 84eb252605df1b63918c29938aec082f90e35c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 28/58] fix: reject geo values of unsupported types

They were silently dropped.
---
 src/ics/geo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/geo.py b/src/ics/geo.py
index b4f9aec..452f4fc 100644
--- a/src/ics/geo.py
+++ b/src/ics/geo.py
@@ -17,9 +17,11 @@ def make_geo(value: Union[Dict[str, float], Tuple[float, float]]) -> "Geo":
 
 
 def make_geo(value):
-    if isinstance(value, dict):
+    if value is None:
+        return None
+    elif isinstance(value, dict):
         return Geo(**value)
     elif isinstance(value, tuple):
         return Geo(*value)
     else:
-        return None
+        raise ValueError(f"can't construct Geo from {repr(value)}")
-- 
2.43.0


From 106dac01b609741b8499c5ae985a1f1ec7d831ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 29/58] fix: copy the lists given to an EmailAlarm

A cloned alarm shared its attendees and attachments with the original.
---
 src/ics/alarm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..3cbaefe 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -92,9 +92,11 @@ class EmailAlarm(BaseAlarm):
     summary: str = attr.ib(default=None)  # message subject
     description: str = attr.ib(default=None)  # message body
     attendees: List[Attendee] = attr.ib(
-        factory=list, metadata={"ics_name": "ATTENDEE"}
+        factory=list, converter=list, metadata={"ics_name": "ATTENDEE"}
     )  # message recipients
-    attach: List[Union[URL, bytes, None]] = attr.ib(factory=list)  # e-mail attachments
+    attach: List[Union[URL, bytes, None]] = attr.ib(
+        factory=list, converter=list
+    )  # e-mail attachments
 
     def add_attendee(self, attendee: Attendee):
         """Add an attendee to the attendee list"""
-- 
2.43.0


From 37485b75203c2eb0efc539dc3e7e8db0661d177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 30/58] fix: a cloned Timezone shared its list of observances
 with the original

---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index f3d470b..ac21fe7 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -129,7 +129,7 @@ class Timezone(Component, _tzinfo):
     NAME = "VTIMEZONE"
 
     tzid: str = attr.ib()
-    observances: List[TimezoneObservance] = attr.ib(factory=list)
+    observances: List[TimezoneObservance] = attr.ib(factory=list, converter=list)
     tzurl: Optional[URL] = attr.ib(default=None)
     last_modified: Optional[datetime.datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
 
-- 
2.43.0


From 0ba45a03b3a72d8fa172812e8d2433914997cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 31/58] fix: a parameter without values was written in a form
 that cannot be read back

---
 src/ics/contentline/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 9c8e1d0..207ac31 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -171,6 +171,8 @@ class ContentLine(RuntimeAttrValidation):
     def _serialize_iter_unwrapped(self, newline=False):
         yield self.name
         for pname in self.params:
+            if not self.params[pname]:
+                continue  # a parameter must have at least one value
             yield ";"
             yield pname
             yield "="
-- 
2.43.0


From 7f0ff629096d72e6ee77272c96b82356357ba711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 32/58] fix: reading a URI property of a person with a quoted
 parameter raised AttributeError

---
 src/ics/attendee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..6ec9ac9 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,7 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            return self.converter.parse(str(value[0]))  # might be a QuotedParamValue
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +45,7 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From 4f374c096bec64d267901bc05289cace33c9d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 33/58] fix: iterating a Calendar splits its text at line ends
 only

str.splitlines() also splits at characters like U+0085 or U+2028 that may be
part of a value, so the pieces were not the lines of the calendar and could
not be read back.
---
 src/ics/icalendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..dfa0d63 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -163,4 +163,5 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        lines = self.serialize().split("\r\n")
+        return iter([line + "\r\n" for line in lines[:-1]] + lines[-1:])
-- 
2.43.0


From ea52d00f347ff2b375605fa1962d785df36657a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:55 +0000
Subject: [PATCH 34/58] fix: converting UTC to a Timezone with negative DST
 gave a wrong local time

---
 src/ics/timezone/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index ac21fe7..b7ac6ba 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -8,7 +8,7 @@ import dateutil
 import dateutil.rrule
 import dateutil.tz
 from attr.validators import instance_of
-from dateutil.tz._common import _tzinfo
+from dateutil.tz._common import _tzinfo, _validate_fromutc_inputs
 
 from ics.component import Component
 from ics.types import URL, ContextDict, DatetimeLike, UTCOffset
@@ -232,6 +232,18 @@ class Timezone(Component, _tzinfo):
     def tzname(self, dt):
         return self._find_observance(dt).tzname
 
+    @_validate_fromutc_inputs
+    def fromutc(self, dt):
+        # The implementation of dateutil assumes that `utcoffset() - dst()` is constant, which doesn't
+        # hold for zones with e.g. negative DST (Europe/Dublin). Instead, look for the wall time that has
+        # the offset leading to it. Within a gap, only the lower offset yields an existing wall time.
+        for offset in sorted({comp.tzoffsetto for comp in self.observances}):
+            for fold in (0, 1):
+                wall = (dt + offset).replace(fold=fold)
+                if self.utcoffset(wall) == offset:
+                    return wall
+        return super().fromutc(dt)
+
 
 RRULE_EPOCH_START = dateutil.rrule.rrule(
     freq=dateutil.rrule.YEARLY, dtstart=datetime.datetime(1970, 1, 1), count=1
-- 
2.43.0


From 96848c4741c458c082f127c0e37b7841243b0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 35/58] fix: timezone observances with UNTIL in UTC, as the RFC
 demands, were rejected and written with a local UNTIL

---
 src/ics/converter/types/various.py | 51 ++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index fae4e5e..fd35a94 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -1,5 +1,7 @@
+import datetime
 import itertools
 import operator
+import re
 from typing import TYPE_CHECKING, Iterable, List, Optional, cast
 
 import attr
@@ -28,6 +30,48 @@ def unique_justseen(iterable, key=None):
     return map(next, map(operator.itemgetter(1), itertools.groupby(iterable, key)))
 
 
+def get_tzoffsetfrom(component: Component):
+    try:
+        return component.tzoffsetfrom  # type: ignore[attr-defined]
+    except (AttributeError, KeyError):
+        return None
+
+
+def until_to_local(line: ContentLine, tzoffsetfrom) -> ContentLine:
+    """
+    The UNTIL of the RRULE of a timezone observance is given in UTC, while its DTSTART is given in local time.
+    """
+    if line.name != "RRULE" or tzoffsetfrom is None:
+        return line
+    value = re.sub(
+        r"(?<=UNTIL=)\d{8}T\d{6}Z",
+        lambda match: DatetimeConverter.serialize(
+            datetime.datetime.strptime(match.group().upper(), "%Y%m%dT%H%M%SZ")
+            + tzoffsetfrom
+        ),
+        line.value,
+        flags=re.IGNORECASE,
+    )
+    return ContentLine(name=line.name, params=line.params, value=value)
+
+
+def until_to_utc(line: ContentLine, tzoffsetfrom) -> ContentLine:
+    """
+    The inverse of `until_to_local`.
+    """
+    if line.name != "RRULE" or tzoffsetfrom is None:
+        return line
+    value = re.sub(
+        r"(?<=UNTIL=)\d{8}T\d{6}(?=;|$)",
+        lambda match: DatetimeConverter.serialize(
+            datetime.datetime.strptime(match.group(), "%Y%m%dT%H%M%S") - tzoffsetfrom
+        )
+        + "Z",
+        line.value,
+    )
+    return ContentLine(name=line.name, params=line.params, value=value)
+
+
 class RecurrenceConverter(AttributeConverter):
     @property
     def filter_ics_names(self) -> List[str]:
@@ -45,8 +89,10 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
+        tzoffsetfrom = get_tzoffsetfrom(component)
         lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
+            until_to_local(line, tzoffsetfrom).serialize(newline=True)
+            for line in context.pop((self, "lines"))
         )
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
@@ -72,8 +118,9 @@ class RecurrenceConverter(AttributeConverter):
                 dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
                 output.append(ContentLine(name="DTSTART", value=dt_value))
 
+        tzoffsetfrom = get_tzoffsetfrom(component)
         for rrule in value._rrule:
-            output.append(rrule_to_ContentLine(rrule))
+            output.append(until_to_utc(rrule_to_ContentLine(rrule), tzoffsetfrom))
         for exrule in value._exrule:
             cl = rrule_to_ContentLine(exrule)
             cl.name = "EXRULE"
-- 
2.43.0


From aebd564e335bc272cf3503720d95afe4e747c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:42 +0000
Subject: [PATCH 36/58] fix: timezone observances without a rule were written
 without the mandatory DTSTART

---
 src/ics/converter/types/various.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index fd35a94..a1a74e0 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -118,6 +118,13 @@ class RecurrenceConverter(AttributeConverter):
                 dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
                 output.append(ContentLine(name="DTSTART", value=dt_value))
 
+        rdates = list(unique_justseen(sorted(value._rdate)))
+        if rdates and not context["DTSTART"]:
+            # DTSTART is mandatory for timezone observances and counts as first onset
+            context["DTSTART"] = rdates[0]
+            dt_value = DatetimeConverter.serialize(rdates[0], context=context)
+            output.append(ContentLine(name="DTSTART", value=dt_value))
+
         tzoffsetfrom = get_tzoffsetfrom(component)
         for rrule in value._rrule:
             output.append(until_to_utc(rrule_to_ContentLine(rrule), tzoffsetfrom))
@@ -125,7 +132,7 @@ class RecurrenceConverter(AttributeConverter):
             cl = rrule_to_ContentLine(exrule)
             cl.name = "EXRULE"
             output.append(cl)
-        for rdate in unique_justseen(sorted(value._rdate)):
+        for rdate in rdates:
             output.append(
                 ContentLine(name="RDATE", value=DatetimeConverter.serialize(rdate))
             )
-- 
2.43.0


From dd5d4a86551a0c018f825b01c4f2f139df20fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 37/58] fix: serializing a value with a custom or pytz tzinfo
 raised AttributeError

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..9402f99 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -142,7 +142,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 6085c59065caff348ab857aaa2d7db556076fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 38/58] fix: a datetime.timezone named UTC was taken for UTC
 whatever its offset

---
 src/ics/timezone/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index b7ac6ba..c8b920f 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -67,6 +67,9 @@ def is_utc(value):
 
     if tz is None:
         return False
+    if isinstance(tz, datetime.timezone):
+        # don't rely on the name, which can be chosen freely
+        return tz == datetime.timezone.utc
     if tz in [datetime.timezone.utc, dateutil.tz.UTC, UTC]:
         return True
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
-- 
2.43.0


From 28e1c0c0dc636662bae1baf03ab23396f421e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 39/58] fix: values in a datetime.timezone with an empty name
 were written as floating

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 9402f99..6dbb272 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -109,7 +109,7 @@ def Timezone_from_builtin(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneRe
     if isinstance(tzinfo, datetime.timezone):
         tzname = tzinfo.tzname(None)
         utcoffset = tzinfo.utcoffset(None)
-        if tzname is None or utcoffset is None:
+        if not tzname or utcoffset is None:
             return TimezoneResult.UNSERIALIZABLE
         else:
             return Timezone_from_offset(tzname, utcoffset)
-- 
2.43.0


From 6b67b80d458b5d774e48de23035ec454ff53a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:17 +0000
Subject: [PATCH 40/58] fix: different timezones with the same TZID in one
 calendar were written as one

---
 src/ics/valuetype/datetime.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 6c5e754..bcd9bf1 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -53,9 +53,21 @@ class DatetimeConverterMixin:
         if value.tzinfo is not None:
             tz = Timezone.from_tzinfo(value.tzinfo, context)
             if tz is not None:
-                params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
-                available_tz.setdefault(tz.tzid, tz)
+                tzid, count = tz.tzid, 1
+                while (
+                    tzid in available_tz
+                    and available_tz[tzid].observances != tz.observances
+                ):
+                    # the same TZID is already used for a different timezone definition
+                    count += 1
+                    tzid = f"{tz.tzid} ({count})"
+                params["TZID"] = [tzid]
+                if tzid not in available_tz:
+                    if tzid != tz.tzid:
+                        tz = cast(Timezone, tz.clone())
+                        object.__setattr__(tz, "tzid", tzid)
+                    available_tz[tzid] = tz
         return value.strftime(nonutc_fmt)
 
     def _parse_dt(
-- 
2.43.0


From 6a9a7dc348fc73d846e1871672eb338757b8b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 41/58] fix: is_utc must not take a definition that names
 itself UTC for UTC if it has another offset

---
 src/ics/timezone/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index c8b920f..9cc145f 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -74,8 +74,11 @@ def is_utc(value):
         return True
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
         return True
-    if isinstance(tz, Timezone) and tz.tzid.upper() in ["UTC", "ETC/UTC"]:
-        return True
+    if isinstance(tz, Timezone):
+        # a definition is free to use the name for another offset
+        return tz.tzid.upper() in ["UTC", "ETC/UTC"] and all(
+            obs.tzoffsetto == TIMEDELTA_ZERO for obs in tz.observances
+        )
     if str(tz).upper() in ["UTC", "ETC/UTC"]:
         return True
 
-- 
2.43.0


From 9c2ff5e33231c511bb2b7b428803d1155fe0f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:49 +0000
Subject: [PATCH 42/58] fix: an event could not be read if the ATTENDEEs of an
 e-mail alarm follow its own

---
 src/ics/converter/value.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..5d5806d 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -50,16 +50,14 @@ class AttributeValueConverter(AttributeConverter):
     ) -> bool:
         assert isinstance(item, ContentLine)
 
-        if context[(self, "current_component")] is None:
-            context[(self, "current_component")] = component
-            context[(self, "current_value_count")] = 0
-        else:
-            assert context[(self, "current_component")] is component
+        # equal converters might be used by a component and a component nested therein
+        # (e.g. for the attendees of an Event and of its EmailAlarms), so count separately for each component
+        count_key = (self, id(component), "current_value_count")
 
         if self.is_multi_value:
             params, converter = self.__prepare_params(item)
             for value in converter.split_value_list(item.value):
-                context[(self, "current_value_count")] += 1
+                context[count_key] = (context[count_key] or 0) + 1
                 params = copy_extra_params(params)
                 parsed = converter.parse(
                     value, params, context
@@ -71,13 +69,13 @@ class AttributeValueConverter(AttributeConverter):
                 # note that this value was the last value in a list stored in a single ContentLine
                 params["__merge_next"] = ["FALSE"]
         else:
-            if context[(self, "current_value_count")] > 0:
+            if context[count_key]:
                 raise ValueError(
                     "attribute {} can only be set once, second occurrence is {}".format(
                         self.ics_name, item
                     )
                 )
-            context[(self, "current_value_count")] += 1
+            context[count_key] = 1
             params, converter = self.__prepare_params(item)
             parsed = converter.parse(
                 item.value, params, context
@@ -105,10 +103,11 @@ class AttributeValueConverter(AttributeConverter):
         return params, converter
 
     def post_populate(self, component: Component, context: ContextDict):
-        if self.is_required and not context[(self, "current_value_count")]:
-            raise ValueError(f"attribute {self.ics_name} is required but got no value")
-        context[(self, "current_component")] = None
-        context[(self, "current_value_count")] = 0
+        if not context.pop((self, id(component), "current_value_count"), None):
+            if self.is_required:
+                raise ValueError(
+                    f"attribute {self.ics_name} is required but got no value"
+                )
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
         if self.is_multi_value:
-- 
2.43.0


From ce30e28beaf661702d564d629bd5d04d76cec624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:47 +0000
Subject: [PATCH 43/58] fix: timezone observances without or with two DTSTARTs
 were not rejected with a ValueError

---
 src/ics/converter/types/various.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index a1a74e0..7ebd735 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -89,10 +89,16 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
+        lines = context.pop((self, "lines"), None) or []
+        # without a DTSTART, dateutil would let the recurrence start at the current time
+        one(
+            [line for line in lines if line.name == "DTSTART"],
+            too_short=f"{component.NAME} must have exactly one DTSTART!",
+            too_long=f"{component.NAME} must have exactly one DTSTART, but got {{first!r}}, {{second!r}}, and possibly more!",
+        )
         tzoffsetfrom = get_tzoffsetfrom(component)
         lines_str = "".join(
-            until_to_local(line, tzoffsetfrom).serialize(newline=True)
-            for line in context.pop((self, "lines"))
+            until_to_local(line, tzoffsetfrom).serialize(newline=True) for line in lines
         )
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
-- 
2.43.0


From 48084b26e79fce613b5ac61c6e76bae72353b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:12 +0000
Subject: [PATCH 44/58] fix: a recurrence rule without FREQ was rejected with a
 TypeError

---
 src/ics/converter/types/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 7ebd735..c7cca95 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -96,6 +96,12 @@ class RecurrenceConverter(AttributeConverter):
             too_short=f"{component.NAME} must have exactly one DTSTART!",
             too_long=f"{component.NAME} must have exactly one DTSTART, but got {{first!r}}, {{second!r}}, and possibly more!",
         )
+        for line in lines:
+            if line.name in ("RRULE", "EXRULE") and not re.search(
+                r"(^|;)FREQ=", line.value, re.IGNORECASE
+            ):
+                # dateutil would raise a TypeError
+                raise ValueError(f"{line.name} must have a FREQ, but got {line.value!r}!")
         tzoffsetfrom = get_tzoffsetfrom(component)
         lines_str = "".join(
             until_to_local(line, tzoffsetfrom).serialize(newline=True) for line in lines
-- 
2.43.0


From 953e7f3e8c69a03ec8cdfe9ccffc9a5996d4f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 45/58] fix: properties named like a component and vice versa
 were rejected with AssertionErrors

---
 src/ics/converter/component.py      |  4 ++--
 src/ics/converter/types/timespan.py |  4 ++--
 src/ics/converter/types/timezone.py |  3 ++-
 src/ics/converter/types/various.py  | 18 +++++++++---------
 src/ics/converter/value.py          |  3 ++-
 src/ics/utils.py                    |  8 ++++++++
 6 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 4a2af7b..24c9da8 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -19,7 +19,7 @@ from ics.component import Component
 from ics.contentline import Container
 from ics.converter.base import AttributeConverter, GenericConverter, sort_converters
 from ics.types import ContainerItem, ContextDict
-from ics.utils import check_is_instance
+from ics.utils import check_is_instance, check_item_type
 
 
 @attr.s(frozen=True)
@@ -42,7 +42,7 @@ class MemberComponentConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        check_item_type(item, Container)
         self.set_or_append_value(component, self.meta.load_instance(item, context))
         return True
 
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 3ebd068..313babd 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -5,7 +5,7 @@ from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter
 from ics.timespan import EventTimespan, Timespan, TodoTimespan
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
-from ics.utils import ensure_datetime
+from ics.utils import check_item_type, ensure_datetime
 from ics.valuetype.base import ValueConverter
 from ics.valuetype.datetime import DateConverter, DatetimeConverter, DurationConverter
 
@@ -37,7 +37,7 @@ class TimespanConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        check_item_type(item, ContentLine)
         seen_items = context.setdefault(CONTEXT_ITEMS, set())
         if item.name in seen_items:
             raise ValueError(f"duplicate value for {item.name} in {item}")
diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index 8ee3efe..bb10839 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -13,6 +13,7 @@ from ics.timezone import (
     TimezoneStandardObservance,
 )
 from ics.types import ContainerItem, ContextDict
+from ics.utils import check_item_type
 from ics.valuetype.datetime import DatetimeConverterMixin
 
 
@@ -42,7 +43,7 @@ class TimezoneObservanceMemberMeta(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        check_item_type(item, Container)
         if item.name.upper() == TimezoneStandardObservance.NAME:
             self.set_or_append_value(
                 component, TimezoneStandardObservance.from_container(item, context)
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index c7cca95..b0bc0c2 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -22,7 +22,7 @@ from ics.converter.base import AttributeConverter, GenericConverter, sort_conver
 from ics.converter.component import ComponentMeta
 from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
-from ics.utils import one
+from ics.utils import check_item_type, one
 from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
 
 
@@ -80,7 +80,7 @@ class RecurrenceConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        check_item_type(item, ContentLine)
         key = (self, "lines")
         lines = context[key]
         if lines is None:
@@ -176,7 +176,7 @@ class AlarmActionConverter(GenericConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        check_item_type(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
@@ -210,13 +210,13 @@ class AlarmMeta(ComponentMeta):
     def load_instance(
         self, container: Container, context: Optional[ContextDict] = None
     ):
-        clazz = get_type_from_action(
-            one(
-                container["ACTION"],
-                too_short="VALARM must have exactly one ACTION!",
-                too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
-            ).value
+        action = one(
+            container["ACTION"],
+            too_short="VALARM must have exactly one ACTION!",
+            too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
         )
+        check_item_type(action, ContentLine)
+        clazz = get_type_from_action(action.value)
         instance = clazz()
         ComponentMeta.BY_TYPE[clazz].populate_instance(instance, container, context)
         return instance
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 5d5806d..fb42d5c 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -7,6 +7,7 @@ from ics.component import Component
 from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
+from ics.utils import check_item_type
 from ics.valuetype.base import ValueConverter
 
 
@@ -48,7 +49,7 @@ class AttributeValueConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        check_item_type(item, ContentLine)
 
         # equal converters might be used by a component and a component nested therein
         # (e.g. for the attendees of an Event and of its EmailAlarms), so count separately for each component
diff --git a/src/ics/utils.py b/src/ics/utils.py
index f58e147..7da05fb 100644
--- a/src/ics/utils.py
+++ b/src/ics/utils.py
@@ -185,6 +185,14 @@ def check_is_instance(name, value, clazz):
         )
 
 
+def check_item_type(item, clazz):
+    """check that a property is no component and vice versa, although they bear the same name"""
+    if not isinstance(item, clazz):
+        raise ValueError(
+            f"{item.name} must be a {clazz.__name__}, but got a {type(item).__name__}!"
+        )
+
+
 def call_validate_on_inst(inst, attr, value):
     inst.validate(attr, value)
 
-- 
2.43.0


From 8f70567d6691ca50e4bd2644f38fc8be93b79233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:28 +0000
Subject: [PATCH 46/58] fix: a TZID too long to be a file name was rejected
 with an OSError

---
 src/ics/timezone/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 6dbb272..09c1000 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -35,7 +35,10 @@ class TimezoneResult(Enum):
 def Timezone_from_tzid(tzid: str) -> Timezone:
     import ics_vtimezones  # type: ignore
 
-    tz_ics = ics_vtimezones.find_vtimezone_ics_file(tzid)
+    try:
+        tz_ics = ics_vtimezones.find_vtimezone_ics_file(tzid)
+    except OSError:  # e.g. because the tzid is too long to be a file name
+        tz_ics = None
     if not tz_ics:
         olson_tzid = ics_vtimezones.windows_to_olson(tzid)
         if olson_tzid:
-- 
2.43.0


From 9546a298f9dd154c86e7411c600fad761a02d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 47/58] fix: a recurrence with a number too large was rejected
 with an OverflowError

---
 src/ics/converter/types/various.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index b0bc0c2..a5a2b21 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -108,7 +108,10 @@ class RecurrenceConverter(AttributeConverter):
         )
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
-        rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        try:
+            rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        except OverflowError as e:
+            raise ValueError(f"{component.NAME} contains a number too large") from e
         rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
         rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
-- 
2.43.0


From 424872825478ae73c23671d6052421d17780ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:10 +0000
Subject: [PATCH 48/58] fix: timezone observances with onsets in UTC made
 reading or using the timezone raise a TypeError

---
 src/ics/converter/types/various.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index a5a2b21..ef4472e 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -112,6 +112,9 @@ class RecurrenceConverter(AttributeConverter):
             rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
         except OverflowError as e:
             raise ValueError(f"{component.NAME} contains a number too large") from e
+        onsets = [*rrule._rdate, *rrule._exdate]  # type: ignore
+        if tzoffsetfrom is not None and any(dt.tzinfo for dt in onsets):
+            raise ValueError(f"the onsets of a {component.NAME} must be local times")
         rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
         rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
-- 
2.43.0


From c4eeec67b07e383615f32738ec63a6fa82093205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:13 +0000
Subject: [PATCH 49/58] fix: timezone observances whose rules have an INTERVAL
 of zero made using the timezone hang

---
 src/ics/converter/types/various.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index ef4472e..8e98733 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -102,6 +102,13 @@ class RecurrenceConverter(AttributeConverter):
             ):
                 # dateutil would raise a TypeError
                 raise ValueError(f"{line.name} must have a FREQ, but got {line.value!r}!")
+            if line.name in ("RRULE", "EXRULE") and re.search(
+                r"(^|;)INTERVAL=(?!\+?0*[1-9])", line.value, re.IGNORECASE
+            ):
+                # dateutil would look for the next occurrence forever
+                raise ValueError(
+                    f"the INTERVAL of {line.name} must be positive, but got {line.value!r}!"
+                )
         tzoffsetfrom = get_tzoffsetfrom(component)
         lines_str = "".join(
             until_to_local(line, tzoffsetfrom).serialize(newline=True) for line in lines
-- 
2.43.0


From 2cb8876510b35ea8485445a87ad68abcbffcb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:00 +0000
Subject: [PATCH 50/58] fix: a TZID too long to be a file name was still
 rejected with an OSError by dateutil

---
 src/ics/valuetype/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index bcd9bf1..28d6987 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -124,7 +124,10 @@ class DatetimeConverterMixin:
                         param_tz
                     )  # be lenient with missing vtimezone definitions
                 except ValueError:
-                    found_tz = gettz(param_tz)
+                    try:
+                        found_tz = gettz(param_tz)
+                    except OSError:  # e.g. too long to be a file name
+                        found_tz = None
                     import platform
                     import sys
 
-- 
2.43.0


From fd698eba578915da2d815d1759bd22c3c623a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:32 +0000
Subject: [PATCH 51/58] fix: comparing times at the very end of year 9999 in a
 timezone with DST raised an OverflowError

---
 src/ics/timezone/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 9cc145f..1309dbf 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -202,7 +202,11 @@ class Timezone(Component, _tzinfo):
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
+            if (
+                comp.tzoffsetdiff < TIMEDELTA_ZERO
+                and fold
+                and dt <= datetime.datetime.max + comp.tzoffsetdiff
+            ):
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From 3d0bedfe24ce67a8b0e9620ff4298c497236d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:42 +0000
Subject: [PATCH 52/58] fix: UTC offsets of a day or more were read, making any
 use of the timezone fail

---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 28d6987..825eadc 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -275,6 +275,8 @@ class UTCOffsetConverterClass(ValueConverter[UTCOffset]):
         groups = match.groupdict()
         sign = groups.pop("sign")
         td = timedelta(**{k: int(v) for k, v in groups.items() if v})
+        if td >= timedelta(days=1):
+            raise ValueError(f"UTCOffset {value!r} is not less than a day")
         if sign == "-":
             return cast(UTCOffset, -td)
         else:
-- 
2.43.0


From f94a2dbfd374b1f02ced4c6c103fc5029d678ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 53/58] fix: accept observance rules with an UNTIL at the ends
 of the representable time

---
 src/ics/converter/types/various.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 8e98733..8c0f1d0 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -22,7 +22,7 @@ from ics.converter.base import AttributeConverter, GenericConverter, sort_conver
 from ics.converter.component import ComponentMeta
 from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
-from ics.utils import check_item_type, one
+from ics.utils import TIMEDELTA_ZERO, check_item_type, one
 from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
 
 
@@ -37,6 +37,15 @@ def get_tzoffsetfrom(component: Component):
         return None
 
 
+def shift_clamped(value: datetime.datetime, offset: datetime.timedelta):
+    """`value + offset`, or the last or first representable time if there is none that late or early"""
+    try:
+        return value + offset
+    except OverflowError:
+        limit = datetime.datetime.max if offset > TIMEDELTA_ZERO else datetime.datetime.min
+        return limit.replace(microsecond=0)
+
+
 def until_to_local(line: ContentLine, tzoffsetfrom) -> ContentLine:
     """
     The UNTIL of the RRULE of a timezone observance is given in UTC, while its DTSTART is given in local time.
@@ -46,8 +55,10 @@ def until_to_local(line: ContentLine, tzoffsetfrom) -> ContentLine:
     value = re.sub(
         r"(?<=UNTIL=)\d{8}T\d{6}Z",
         lambda match: DatetimeConverter.serialize(
-            datetime.datetime.strptime(match.group().upper(), "%Y%m%dT%H%M%SZ")
-            + tzoffsetfrom
+            shift_clamped(
+                datetime.datetime.strptime(match.group().upper(), "%Y%m%dT%H%M%SZ"),
+                tzoffsetfrom,
+            )
         ),
         line.value,
         flags=re.IGNORECASE,
@@ -64,7 +75,10 @@ def until_to_utc(line: ContentLine, tzoffsetfrom) -> ContentLine:
     value = re.sub(
         r"(?<=UNTIL=)\d{8}T\d{6}(?=;|$)",
         lambda match: DatetimeConverter.serialize(
-            datetime.datetime.strptime(match.group(), "%Y%m%dT%H%M%S") - tzoffsetfrom
+            shift_clamped(
+                datetime.datetime.strptime(match.group(), "%Y%m%dT%H%M%S"),
+                -tzoffsetfrom,
+            )
         )
         + "Z",
         line.value,
-- 
2.43.0


From d1701b6900a4aee7b4ff6f7ac2dad966c22cef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 54/58] fix: reject time spans whose duration leads beyond the
 representable time

---
 src/ics/timespan.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 6666009..026dfd7 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -279,6 +279,12 @@ class Timespan:
             if self.duration is not None:
                 if self.duration < TIMEDELTA_ZERO:
                     raise ValueError("timespan duration must be positive")
+                try:
+                    self.begin_time + self.duration
+                except OverflowError as e:
+                    raise ValueError(
+                        f"{self._end_name()} time of timespan is not representable"
+                    ) from e
                 if self.precision == "day" and self.duration < TIMEDELTA_DAY:
                     raise ValueError(
                         "all-day timespan duration must be at least one day"
-- 
2.43.0


From 82fb5b1ffe59de98612a8c3c3426fe3d804abeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 55/58] fix: reject binary values with characters that are not
 base64

---
 src/ics/valuetype/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index a31727e..c7ce754 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -30,7 +30,7 @@ class BinaryConverterClass(ValueConverter[bytes]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> bytes:
-        return base64.b64decode(value)
+        return base64.b64decode(value, validate=True)
 
     def serialize(
         self,
-- 
2.43.0


From 0670ba3d544049dfef07e2e47f36837fc47cafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 56/58] fix: reject numbers that only Python understands (1_0,
 non-ASCII digits, nan, inf)

---
 src/ics/valuetype/generic.py | 15 ++++++++++++++-
 src/ics/valuetype/special.py |  3 ++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index c7ce754..4f8c76e 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,4 +1,6 @@
 import base64
+import math
+import re
 from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
@@ -109,6 +111,9 @@ class IntegerConverterClass(ValueConverter[int]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> int:
+        # int() also accepts underscores and the digits of other scripts
+        if not re.fullmatch(r"\s*[+-]?[0-9]+\s*", value):
+            raise ValueError(f"can't interpret '{value}' as integer")
         return int(value)
 
     def serialize(
@@ -123,6 +128,14 @@ class IntegerConverterClass(ValueConverter[int]):
 IntegerConverter = IntegerConverterClass()
 
 
+def parse_float(value: str) -> float:
+    number = float(value)
+    # float() also accepts underscores, the digits of other scripts, infinity and NaN
+    if not value.isascii() or "_" in value or not math.isfinite(number):
+        raise ValueError(f"can't interpret '{value}' as float")
+    return number
+
+
 class FloatConverterClass(ValueConverter[float]):
     @property
     def ics_type(self) -> str:
@@ -138,7 +151,7 @@ class FloatConverterClass(ValueConverter[float]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> float:
-        return float(value)
+        return parse_float(value)
 
     def serialize(
         self,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 256f944..1d8a046 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -7,6 +7,7 @@ from ics.attendee import Person
 from ics.geo import Geo
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
 from ics.valuetype.base import ValueConverter
+from ics.valuetype.generic import parse_float
 
 __all__ = ["GeoConverter"]
 
@@ -29,7 +30,7 @@ class GeoConverterClass(ValueConverter[Geo]):
         latitude, sep, longitude = value.partition(";")
         if not sep:
             raise ValueError("geo must have two float values")
-        return Geo(float(latitude), float(longitude))
+        return Geo(parse_float(latitude), parse_float(longitude))
 
     def serialize(
         self,
-- 
2.43.0


From 465eb7281b01bcf3108dbf385c0deee9f1514d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 57/58] fix: write integers as numbers even if they are bools

---
 src/ics/valuetype/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index 4f8c76e..358b0d6 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -122,7 +122,7 @@ class IntegerConverterClass(ValueConverter[int]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> str:
-        return str(value)
+        return format(value, "d")
 
 
 IntegerConverter = IntegerConverterClass()
-- 
2.43.0


From d0accf15c7339290c962aa09fefcd9f089e4dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 58/58] fix: write floats without exponents, and no infinity or
 NaN

---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index 358b0d6..62516c3 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,6 +1,7 @@
 import base64
 import math
 import re
+from decimal import Decimal
 from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
@@ -159,7 +160,10 @@ class FloatConverterClass(ValueConverter[float]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> str:
-        return str(value)
+        if not math.isfinite(value):
+            raise ValueError(f"can't represent {value} as FLOAT")
+        # no exponents
+        return format(Decimal(str(value)), "f")
 
 
 FloatConverter = FloatConverterClass()
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 1d8a046..10c9c9e 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,4 +1,5 @@
 import abc
+import math
 from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
@@ -38,6 +39,8 @@ class GeoConverterClass(ValueConverter[Geo]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> str:
+        if not all(map(math.isfinite, value)):
+            raise ValueError(f"can't represent {value} as GEO")
         return "%f;%f" % value
 
 
-- 
2.43.0

