From fe73cd39faae418ded8d7992aa647b278f9e1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 01/63] fix: keep extra parameters of DTEND when serializing

They are stored under the name 'END' when parsing, but were looked up as 'DTEND'.
---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..7c1395e 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,7 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(ExtraParams, self.get_extra_params(component, value._end_name()))
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From 9eaf950cb514c8ed17fc364f8fe4dbfe2a61bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 02/63] fix: serialize the ACTION of a CustomAlarm only once

The duplicated property made the output unparsable.
---
 src/ics/alarm.py                   | 4 +++-
 src/ics/converter/types/various.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..c0ad881 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -63,7 +63,9 @@ class CustomAlarm(BaseAlarm):
     A calendar event VALARM with custom ACTION.
     """
 
-    _action: str = attr.ib(default=None)
+    _action: str = attr.ib(
+        default=None, metadata={"ics_ignore": True}
+    )  # handled by AlarmActionConverter
 
     @property
     def action(self):
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..c44fa16 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -112,6 +112,8 @@ class AlarmActionConverter(GenericConverter):
     ) -> bool:
         assert isinstance(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
+        if isinstance(component, CustomAlarm):
+            component._action = item.value
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
         return True
-- 
2.43.0


From b04db677541ec1cafd9cc0e56e489e43667ffa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 03/63] fix: don't split ATTACH and ATTENDEE URIs at commas

---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..55b08ad 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,5 +1,5 @@
 import base64
-from typing import Type, Union
+from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
@@ -164,6 +164,10 @@ class URIConverterClass(ValueConverter[URL]):
     def python_type(self) -> Type[URL]:
         return URL
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # URIs may contain unescaped commas, all properties having them are single-valued
+        yield values
+
     def parse(
         self,
         value: str,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..babe47b 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Generic, Type, TypeVar, Union, cast
+from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
 from ics import Attendee, Organizer
@@ -46,6 +46,10 @@ P = TypeVar("P", bound=Person)
 
 
 class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # addresses are URIs and may contain unescaped commas
+        yield values
+
     def parse(
         self,
         value: str,
-- 
2.43.0


From 04d54e44312a7ae0e35772985d6c3f2fbcdfab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 04/63] fix: make Timezone lookups independent of the fold of
 earlier lookups

---
 src/ics/timezone/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..6047f3c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,17 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # fold is ignored when comparing (and thus caching) datetimes, so pass it explicitly
+        return self._find_observance_cachable(
+            dt.replace(tzinfo=None), getattr(dt, "fold", 0)
+        )
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From ab1a15f8d25c32d435f49f634a2d0aa7bd0753fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 05/63] fix: use a valid precision in unset_all_day

---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From ab43ae71866465b6ecc9fe26ec9223db6bad9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 06/63] fix: keep extras and extra params when cloning a
 Component

---
 src/ics/component.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..afffcaa 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -4,7 +4,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.contentline import Container
-from ics.types import ContextDict, ExtraParams, RuntimeAttrValidation
+from ics.types import (
+    ContextDict,
+    ExtraParams,
+    RuntimeAttrValidation,
+    copy_extra_params,
+)
 
 ComponentType = TypeVar("ComponentType", bound="Component")
 ComponentExtraParams = Dict[str, Union[ExtraParams, List[ExtraParams]]]
@@ -96,4 +101,16 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        object.__setattr__(new, "extra", self.extra.clone())
+        object.__setattr__(
+            new,
+            "extra_params",
+            {
+                key: [copy_extra_params(v) for v in val]
+                if isinstance(val, list)
+                else copy_extra_params(val)
+                for key, val in self.extra_params.items()
+            },
+        )
+        return new
-- 
2.43.0


From b403f56d9aac91f1702efa7560263b2d2da4e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 07/63] fix: make deep clones of nested Containers deep

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..884f498 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -262,7 +262,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From 6ceb401015c29f09d877fabdeb9d8fe46a3b9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 08/63] fix: don't keep invalid items in a Container when
 rejecting them

---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 884f498..c007fc3 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -287,8 +287,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -307,8 +308,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From c4a3bb7127253ad58f1ac087d2e4f102f90af8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 09/63] fix: timespans that only touch don't intersect

The end instant is not part of a timespan, as noted in the code, so an event
ending exactly when another one starts doesn't overlap with it. Most visibly,
an all-day event was also reported on the day after it.
---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..e6eb197 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -511,9 +511,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From 923a8d7f6c846615d8ec5cfea13767aab654e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 10/63] fix: don't interpret the current UTC time as local time
 in Timeline.now

---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..8c44753 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -152,4 +152,4 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        return self.at(datetime.now())
-- 
2.43.0


From 68264b6808aa954114ceba017934a534394bbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 11/63] fix: let Timeline.on cover a single day for the last
 second of a day

---
 src/ics/timeline.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 8c44753..2b62b3a 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -133,7 +129,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + timedelta(days=1)
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 2187cfa0300ca0a7539cd32422e24e4ba3b10bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 12/63] fix: zero-pad years when serializing dates

---
 src/ics/valuetype/datetime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..bd49b46 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -29,6 +29,13 @@ __all__ = [
 ]
 
 
+def strftime(value, fmt: str) -> str:
+    # the C implementation of %Y might not zero-pad years to 4 digits
+    if "%Y" in fmt:
+        fmt = fmt.replace("%Y", f"{value.year:04d}")
+    return value.strftime(fmt)
+
+
 class DatetimeConverterMixin:
     FORMATS = {6: "%Y%m", 8: "%Y%m%d"}
     CONTEXT_KEY_AVAILABLE_TZ = "DatetimeAvailableTimezones"
@@ -42,7 +49,7 @@ class DatetimeConverterMixin:
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
         if is_utc(value):
-            return value.strftime(utc_fmt)
+            return strftime(value, utc_fmt)
 
         if value.tzinfo is not None:
             tz = Timezone.from_tzinfo(value.tzinfo, context)
@@ -50,7 +57,7 @@ class DatetimeConverterMixin:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
                 available_tz.setdefault(tz.tzid, tz)
-        return value.strftime(nonutc_fmt)
+        return strftime(value, nonutc_fmt)
 
     def _parse_dt(
         self,
@@ -180,7 +187,7 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        return strftime(value, "%Y%m%d")
 
     def parse(
         self,
-- 
2.43.0


From eb5fda481183a50487741f96b5db52f2ddd3a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 13/63] fix: handle quoted URI parameters of Persons

---
 src/ics/valuetype/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index 55b08ad..4072eb0 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -174,7 +174,7 @@ class URIConverterClass(ValueConverter[URL]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> URL:
-        return urlparse(value)
+        return urlparse(str(value))  # convert QuotedParamValues
 
     def serialize(
         self,
-- 
2.43.0


From 8e3fc808bc8de932c4260d53f72886783da7d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 14/63] fix: serialize empty parameter values in a way that can
 be parsed again

---
 src/ics/contentline/container.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index c007fc3..339e7fb 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -171,13 +171,19 @@ class ContentLine(RuntimeAttrValidation):
     def _serialize_iter_unwrapped(self, newline=False):
         yield self.name
         for pname in self.params:
+            if not self.params[pname]:
+                continue
             yield ";"
             yield pname
             yield "="
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    not pval
+                    or isinstance(pval, QuotedParamValue)
+                    or re.search("[:;,]", pval)
+                ):
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From 1d0341a1fa36a09d84cdab98101f9ba14ac0ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 15/63] fix: don't fold the trailing newline of a serialized
 ContentLine

---
 src/ics/contentline/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 339e7fb..3a49377 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -151,7 +151,7 @@ class ContentLine(RuntimeAttrValidation):
     def serialize(self, newline=False, wrap=DEFAULT_LINE_WRAP):
         if wrap is None:
             return self._serialize_unwrapped(newline)
-        return "\r\n".join(wrap.wrap(self._serialize_unwrapped(newline)))
+        return "".join(self.serialize_iter(newline, wrap))
 
     def serialize_iter(self, newline=False, wrap=DEFAULT_LINE_WRAP):
         if wrap is None:
-- 
2.43.0


From 81d649150717961dfd3784beec4a3a60631a9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 16/63] fix: use the default precision for parsed components
 without any time

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 7c1395e..017c415 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From d7942a7f3f4ca1519d36ed5207a6a818fcb8f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 17/63] fix: don't split lines at Unicode separators when
 iterating a Calendar

---
 src/ics/icalendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..6fe28eb 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -1,4 +1,5 @@
 from datetime import tzinfo
+from io import StringIO
 from typing import ClassVar, Iterable, Iterator, List, Optional, Union, overload
 
 import attr
@@ -163,4 +164,4 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        return iter(StringIO(self.serialize(), newline=""))
-- 
2.43.0


From 2ca5f8f4f6cb59a5f4deaee748d911c83933f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 18/63] fix: use the RFC 5545 property names CLASS and
 PERCENT-COMPLETE

---
 src/ics/event.py | 4 +++-
 src/ics/todo.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index 71c58a2..d1150e8 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -251,7 +251,9 @@ class CalendarEntryAttrs(Component):
 @attr.s(eq=True, order=False)  # order methods are provided by CalendarEntryAttrs
 class EventAttrs(CalendarEntryAttrs):
     classification: Optional[str] = attr.ib(
-        default=None, validator=v_optional(instance_of(str))
+        default=None,
+        validator=v_optional(instance_of(str)),
+        metadata={"ics_name": "CLASS"},
     )
 
     transparent: Optional[bool] = attr.ib(default=None)
diff --git a/src/ics/todo.py b/src/ics/todo.py
index 0843456..64d6071 100644
--- a/src/ics/todo.py
+++ b/src/ics/todo.py
@@ -21,7 +21,9 @@ MAX_PRIORITY = 9
 @attr.s(eq=True, order=False)  # order methods are provided by CalendarEntryAttrs
 class TodoAttrs(CalendarEntryAttrs):
     percent: Optional[int] = attr.ib(
-        default=None, validator=v_optional(in_(range(0, MAX_PERCENT + 1)))
+        default=None,
+        validator=v_optional(in_(range(0, MAX_PERCENT + 1))),
+        metadata={"ics_name": "PERCENT-COMPLETE"},
     )
     priority: Optional[int] = attr.ib(
         default=None, validator=v_optional(in_(range(0, MAX_PRIORITY + 1)))
-- 
2.43.0


From c2bb6b48e6a8d6ca39171784b62dff03553b8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 19/63] fix: validate attributes added by subclasses on
 assignment

The field cache of a base class was inherited by its subclasses.
---
 src/ics/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..e668b2a 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,7 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            if "__attr_fields__" not in cls.__dict__:  # don't inherit the cached value
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From 1199676a3685d0eaa4f0f9e935aa73558440283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 20/63] fix: support UTC values for UNTIL in timezone
 observances

RFC 5545 requires UNTIL to be in UTC there, although DTSTART is a local time.
---
 src/ics/converter/types/various.py | 44 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index c44fa16..8013722 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -1,5 +1,7 @@
 import itertools
 import operator
+import re
+from datetime import datetime, timedelta
 from typing import TYPE_CHECKING, Iterable, List, Optional, cast
 
 import attr
@@ -21,13 +23,31 @@ from ics.converter.component import ComponentMeta
 from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.utils import one
-from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
+from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin, strftime
 
 
 def unique_justseen(iterable, key=None):
     return map(next, map(operator.itemgetter(1), itertools.groupby(iterable, key)))
 
 
+def shift_until(line: ContentLine, pattern: str, offset: timedelta, suffix: str):
+    def shift(match):
+        until = datetime.strptime(match.group(1), "%Y%m%dT%H%M%S") + offset
+        return f"UNTIL={strftime(until, '%Y%m%dT%H%M%S')}{suffix}"
+
+    line = line.clone()
+    line.value = re.sub(pattern, shift, line.value)
+    return line
+
+
+def get_onset_offset(component: Component) -> Optional[timedelta]:
+    """The offset of the local times used in timezone observances, where UNTIL must nevertheless be in UTC."""
+    try:
+        return component.tzoffsetfrom  # type: ignore[attr-defined]
+    except (AttributeError, KeyError):
+        return None
+
+
 class RecurrenceConverter(AttributeConverter):
     @property
     def filter_ics_names(self) -> List[str]:
@@ -45,9 +65,13 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
-        )
+        lines = context.pop((self, "lines"))
+        offset = get_onset_offset(component)
+        if offset is not None:
+            lines = [
+                shift_until(line, r"UNTIL=(\d{8}T\d{6})Z", offset, "") for line in lines
+            ]
+        lines_str = "".join(line.serialize(newline=True, wrap=None) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
@@ -72,12 +96,18 @@ class RecurrenceConverter(AttributeConverter):
                 dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
                 output.append(ContentLine(name="DTSTART", value=dt_value))
 
-        for rrule in value._rrule:
-            output.append(rrule_to_ContentLine(rrule))
+        lines = [rrule_to_ContentLine(rrule) for rrule in value._rrule]
         for exrule in value._exrule:
             cl = rrule_to_ContentLine(exrule)
             cl.name = "EXRULE"
-            output.append(cl)
+            lines.append(cl)
+        offset = get_onset_offset(component)
+        if offset is not None:
+            lines = [
+                shift_until(line, r"UNTIL=(\d{8}T\d{6})(?!Z)", -offset, "Z")
+                for line in lines
+            ]
+        output.extend(lines)
         for rdate in unique_justseen(sorted(value._rdate)):
             output.append(
                 ContentLine(name="RDATE", value=DatetimeConverter.serialize(rdate))
-- 
2.43.0


From 68d71a1c9cf2f76a9df2fe84bb5c37102ea7f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 21/63] fix: make the interval relations usable for Todos

---
 src/ics/timespan.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index e6eb197..b9cb866 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -600,10 +600,6 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        return tuple(reversed(super().cmp_tuple()))
-- 
2.43.0


From 565e39b2f4d6bf066df38f923fe0db5e0b379dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 22/63] fix: don't drop the due time when it can't be converted
 to a duration

---
 src/ics/timespan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index b9cb866..a1af2b8 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -376,7 +376,12 @@ class Timespan:
         if current == target or (current_is_end and target_is_end):
             return self
         elif current_is_end and target == "duration":
-            return self.replace(end_time=None, duration=self.get_effective_duration())
+            duration = self.get_effective_duration()
+            if duration is None:
+                raise ValueError(
+                    f"can't convert {current} to duration without a begin time"
+                )
+            return self.replace(end_time=None, duration=duration)
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
         elif target is None:
-- 
2.43.0


From 9ce2cc67b4797564b0ab265c519d4d04312406a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 23/63] fix: support floating and zoned times at once in
 Timeline.start_after

---
 src/ics/timeline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 2b62b3a..7c9fd43 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import ensure_datetime, floor_datetime_to_midnight
 
@@ -108,9 +108,10 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            begin = CMP_NORMALIZATION.normalize(timespan.begin_time)
+            if begin is not None and begin > instant:
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From 045453e0eb5057626ffbda37bd84ce1b282a91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 24/63] fix: serialize UTC times of day with a Z suffix

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index bd49b46..6f3507b 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -48,7 +48,7 @@ class DatetimeConverterMixin:
         utc_fmt="%Y%m%dT%H%M%SZ",
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
-        if is_utc(value):
+        if is_utc(value.tzinfo):
             return strftime(value, utc_fmt)
 
         if value.tzinfo is not None:
-- 
2.43.0


From 6f147320e44897dfeeea6303a5f9631613d9735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 25/63] fix: support DATE-TIME values when parsing periods

---
 src/ics/valuetype/datetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 6f3507b..21dedf9 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -381,6 +381,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
@@ -398,7 +400,7 @@ class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
         start, sep, end = value.partition("/")
         if not sep:
             raise ValueError("PERIOD '%s' must contain the separator '/'")
-        if end.startswith("P"):  # period-start = date-time "/" dur-value
+        if end.startswith(("P", "+P")):  # period-start = date-time "/" dur-value
             return Timespan(
                 begin_time=self._parse_dt(start, params, context),
                 duration=DurationConverter.parse(end, params, context),
-- 
2.43.0


From 12d90d7b7ef96ccb684884866af740a619f8c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 26/63] fix: reject UTC offsets that are out of range

---
 src/ics/valuetype/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 21dedf9..905555a 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -250,11 +250,11 @@ class UTCOffsetConverterClass(ValueConverter[UTCOffset]):
         context: ContextDict = EmptyContext,
     ) -> UTCOffset:
         match = re.fullmatch(
-            r"(?P<sign>\+|-|)(?P<hours>[0-9]{2})(?P<minutes>[0-9]{2})(?P<seconds>[0-9]{2})?",
+            r"(?P<sign>\+|-|)(?P<hours>[01][0-9]|2[0-3])(?P<minutes>[0-5][0-9])(?P<seconds>[0-5][0-9])?",
             value,
         )
         if not match:
-            raise ValueError("value '%s' is not a valid UTCOffset")
+            raise ValueError("value '%s' is not a valid UTCOffset" % value)
         groups = match.groupdict()
         sign = groups.pop("sign")
         td = timedelta(**{k: int(v) for k, v in groups.items() if v})
-- 
2.43.0


From ac0bbf1a0a51433adadf85e897b52b54be352557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 27/63] fix: reject durations with units on the wrong side of
 the T

---
 src/ics/valuetype/datetime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 905555a..987e5d6 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -322,21 +322,23 @@ class DurationConverterClass(ValueConverter[timedelta]):
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
+        in_time = False
         while i < len(value):
-            if value[i] == "T":
+            if value[i] == "T" and not in_time:
+                in_time = True
                 i += 1
                 if i == len(value):
                     break
             j = i
-            while value[j].isdigit():
+            while j < len(value) and value[j].isdigit():
                 j += 1
-            if i == j:
+            if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
             val = int(value[i:j])
-            if value[j] in DAYS:
+            if value[j] in DAYS and not in_time:
                 days += val * DAYS[value[j]]
                 DAYS.pop(value[j])
-            elif value[j] in SECS:
+            elif value[j] in SECS and in_time:
                 secs += val * SECS[value[j]]
                 SECS.pop(value[j])
             else:
-- 
2.43.0


From 06853d8bdb6ed68335a2ff54fd28a7840e2732e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 28/63] fix: reject invalid characters in BINARY values

---
 src/ics/valuetype/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index 4072eb0..57a38e5 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -30,7 +30,7 @@ class BinaryConverterClass(ValueConverter[bytes]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> bytes:
-        return base64.b64decode(value)
+        return base64.b64decode(value, validate=True)
 
     def serialize(
         self,
-- 
2.43.0


From d2a40de867f5a4e36c4e8d89016ca06fde20b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 29/63] fix: reject INTEGER values that are only valid in
 Python source code

---
 src/ics/valuetype/generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index 57a38e5..9ccce33 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,4 +1,5 @@
 import base64
+import re
 from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
@@ -109,6 +110,8 @@ class IntegerConverterClass(ValueConverter[int]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> int:
+        if not re.fullmatch("[+-]?[0-9]+", value):
+            raise ValueError(f"can't interpret '{value}' as integer")
         return int(value)
 
     def serialize(
-- 
2.43.0


From a30e71adc8f4ee1abb88939a922ec634027a883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 30/63] fix: support the STATUS values of Todos

---
 src/ics/event.py |  7 ++++++-
 src/ics/todo.py  | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d1150e8..f13bc97 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -60,7 +60,7 @@ class CalendarEntryAttrs(Component):
     description: Optional[str] = attr.ib(default=None)
     location: Optional[str] = attr.ib(default=None)
     url: Union[None, str, URL] = attr.ib(default=None)
-    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper), validator=in_(STATUS_VALUES))  # type: ignore[misc]
+    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper))  # type: ignore[misc]
 
     created: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
     last_modified: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
@@ -71,6 +71,7 @@ class CalendarEntryAttrs(Component):
 
     # this is overridden by subclasses and then read by the Timespan converter to instantiate an object of the right subclass
     _TIMESPAN_TYPE: ClassVar[Type[Timespan]] = Timespan
+    _STATUS_VALUES: ClassVar[Tuple[Optional[str], ...]] = STATUS_VALUES
 
     def __init_subclass__(cls):
         super().__init_subclass__()
@@ -84,6 +85,10 @@ class CalendarEntryAttrs(Component):
         check_is_instance(attr, value, self._TIMESPAN_TYPE)
         value.validate()
 
+    @status.validator
+    def validate_status(self, attr, value):
+        in_(self._STATUS_VALUES)(self, attr, value)
+
     ####################################################################################################################
 
     @property
diff --git a/src/ics/todo.py b/src/ics/todo.py
index 64d6071..4df4f6e 100644
--- a/src/ics/todo.py
+++ b/src/ics/todo.py
@@ -3,13 +3,13 @@
 # bug confuses the files
 
 from datetime import datetime
-from typing import ClassVar, Optional, Type
+from typing import ClassVar, Optional, Tuple, Type
 
 import attr
 from attr.validators import in_
 from attr.validators import optional as v_optional
 
-from ics.event import CalendarEntryAttrs
+from ics.event import STATUS_VALUES, CalendarEntryAttrs
 from ics.timespan import Timespan, TodoTimespan
 from ics.types import DatetimeLike, TimedeltaLike
 from ics.utils import ensure_datetime, ensure_timedelta
@@ -20,6 +20,13 @@ MAX_PRIORITY = 9
 
 @attr.s(eq=True, order=False)  # order methods are provided by CalendarEntryAttrs
 class TodoAttrs(CalendarEntryAttrs):
+    _STATUS_VALUES: ClassVar[Tuple[Optional[str], ...]] = (
+        *STATUS_VALUES,
+        "NEEDS-ACTION",
+        "COMPLETED",
+        "IN-PROCESS",
+    )
+
     percent: Optional[int] = attr.ib(
         default=None,
         validator=v_optional(in_(range(0, MAX_PERCENT + 1))),
-- 
2.43.0


From 33169afbb9ca82655a04e2804b21392e56db8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 31/63] fix: escape the ACTION of CustomAlarms

---
 src/ics/converter/types/various.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 8013722..7e54fce 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -24,6 +24,7 @@ from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.utils import one
 from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin, strftime
+from ics.valuetype.text import TextConverter
 
 
 def unique_justseen(iterable, key=None):
@@ -143,7 +144,7 @@ class AlarmActionConverter(GenericConverter):
         assert isinstance(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
         if isinstance(component, CustomAlarm):
-            component._action = item.value
+            component._action = TextConverter.parse(item.value)
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
         return True
@@ -154,7 +155,7 @@ class AlarmActionConverter(GenericConverter):
             ContentLine(
                 name="ACTION",
                 params=cast(ExtraParams, component.extra_params.get("ACTION", {})),
-                value=component.action,
+                value=TextConverter.serialize(component.action),
             )
         )
 
-- 
2.43.0


From 8ad53a838acef92b02a561c8b8590e6a07bfe34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 32/63] fix: write the DTSTART of timezone observances exactly
 once

---
 src/ics/converter/types/various.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 7e54fce..eb69d60 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -76,6 +76,10 @@ class RecurrenceConverter(AttributeConverter):
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        if any(line.name == "DTSTART" for line in lines):
+            # dateutil appends DTSTART to the RDATEs, even if a RRULE already yields it
+            if any(r._dtstart in r for r in rrule._rrule):  # type: ignore
+                rrule._rdate.pop()  # type: ignore
         rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
         rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
@@ -97,6 +101,18 @@ class RecurrenceConverter(AttributeConverter):
                 dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
                 output.append(ContentLine(name="DTSTART", value=dt_value))
 
+        rdates = list(unique_justseen(sorted(value._rdate)))
+        if rdates and not context["DTSTART"]:
+            # the first instance of a set without any rules is its DTSTART
+            dtstart = context["DTSTART"] = rdates.pop(0)
+            dt_value = DatetimeConverter.serialize(dtstart, context=context)
+            output.append(ContentLine(name="DTSTART", value=dt_value))
+        elif context["DTSTART"] in rdates and not any(
+            context["DTSTART"] in rrule for rrule in value._rrule
+        ):
+            # DTSTART is always part of the set and needs no further RDATE
+            rdates.remove(context["DTSTART"])
+
         lines = [rrule_to_ContentLine(rrule) for rrule in value._rrule]
         for exrule in value._exrule:
             cl = rrule_to_ContentLine(exrule)
@@ -109,7 +125,7 @@ class RecurrenceConverter(AttributeConverter):
                 for line in lines
             ]
         output.extend(lines)
-        for rdate in unique_justseen(sorted(value._rdate)):
+        for rdate in rdates:
             output.append(
                 ContentLine(name="RDATE", value=DatetimeConverter.serialize(rdate))
             )
-- 
2.43.0


From 37c922bb0964f6e326b3e19fb11778e8c93bcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 33/63] fix: convert UTC to local time correctly in Timezones
 with negative DST or irregular transitions

---
 src/ics/timezone/__init__.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 6047f3c..7f64a05 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -216,6 +216,33 @@ class Timezone(Component, _tzinfo):
 
             return self.observances[0]
 
+    def fromutc(self, dt):
+        # the implementation inherited from dateutil assumes that DST is always ahead of a constant standard offset,
+        # so look for the latest onset in UTC instead
+        if len(self.observances) < 2:
+            return dt + self.observances[0].tzoffsetto
+
+        lastonset = lastcomp = None
+        for comp in self.observances:
+            onset = comp.rrule.before(
+                dt.replace(tzinfo=None) + comp.tzoffsetfrom, inc=True
+            )
+            if onset is not None:
+                onset -= comp.tzoffsetfrom
+                if lastonset is None or lastonset < onset:
+                    lastonset = onset
+                    lastcomp = comp
+        if lastcomp is None:
+            lastcomp = next(
+                (comp for comp in self.observances if not comp.is_dst),
+                self.observances[0],
+            )
+
+        wall = (dt + lastcomp.tzoffsetto).replace(fold=0)
+        if self.utcoffset(wall) != lastcomp.tzoffsetto:
+            wall = wall.replace(fold=1)
+        return wall
+
     def utcoffset(self, dt):
         if dt is None:
             return None
-- 
2.43.0


From ad8aa609797299bb2e563c475c3461cafdf7feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 34/63] fix: don't fail with AttributeError when converting
 pytz and unsupported tzinfo objects

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..9402f99 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -142,7 +142,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 5a8755b404e0bfabaf0fd20950a2c8b84f1aac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 35/63] fix: reject entries with both DTEND and DUE instead of
 ignoring one of them

---
 src/ics/converter/types/timespan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 017c415..4aafdab 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -65,7 +65,8 @@ class TimespanConverter(AttributeConverter):
                 context[CONTEXT_BEGIN_TIME] = value
             else:
                 end_name = {"DTEND": "end", "DUE": "due"}[item.name]
-                context[CONTEXT_END_NAME] = end_name
+                if context.setdefault(CONTEXT_END_NAME, end_name) != end_name:
+                    raise ValueError("can't set both DTEND and DUE")
                 self.set_or_append_extra_params(component, params, name=end_name)
                 context[CONTEXT_END_TIME] = value
 
-- 
2.43.0


From 2806f7b28a85d500bcbdc876c267790767d0ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 36/63] fix: keep the UTC marker and padded year of UNTIL when
 converting rrules to content lines

---
 src/ics/rrule.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index c093c51..3e16a7a 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -1,3 +1,6 @@
+import datetime
+import re
+
 import dateutil.rrule
 
 from ics.contentline.parser import ContentLineParser
@@ -32,7 +35,17 @@ def rrule_to_ContentLine(self: dateutil.rrule.rrule):
     while val[0].startswith("DTSTART"):
         val = val[1:]
     assert len(val) == 1
-    return ContentLineParser().parse(val[0])
+    cl = ContentLineParser().parse(val[0])
+    if self._until is not None:  # type: ignore[attr-defined]
+        # dateutil drops the time zone and doesn't pad the year
+        until = self._until  # type: ignore[attr-defined]
+        suffix = ""
+        if until.tzinfo is not None:
+            until = until.astimezone(datetime.timezone.utc)
+            suffix = "Z"
+        until = f"{until.year:04d}{until:%m%dT%H%M%S}{suffix}"
+        cl.value = re.sub("UNTIL=[^;]*", f"UNTIL={until}", cl.value)
+    return cl
 
 
 def rrule_eq(self: dateutil.rrule.rrule, other: dateutil.rrule.rrule):
-- 
2.43.0


From f5c2780e3ba28efe60e021e3764d4f3bb9a05611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 37/63] fix: compare, hash and print rrulesets independently of
 whether they were iterated

---
 src/ics/rrule.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index 3e16a7a..e2274b4 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -62,10 +62,20 @@ def rrule_repr(self: dateutil.rrule.rrule):
     return f"rrule({', '.join(f'{k}={v!r}' for k, v in rrule_to_dict(self).items())})"
 
 
+def rruleset_to_tuple(self: dateutil.rrule.rruleset):
+    # dateutil sorts the dates in place when iterating, so their order bears no meaning
+    return (
+        tuple(self._rrule),  # type: ignore[attr-defined]
+        tuple(sorted(self._rdate, key=str)),  # type: ignore[attr-defined]
+        tuple(self._exrule),  # type: ignore[attr-defined]
+        tuple(sorted(self._exdate, key=str)),  # type: ignore[attr-defined]
+    )
+
+
 def rruleset_eq(self: dateutil.rrule.rruleset, other: dateutil.rrule.rruleset):
     if not isinstance(other, dateutil.rrule.rruleset):
         return False
-    return self._rrule == other._rrule and self._rdate == other._rdate and self._exrule == other._exrule and self._exdate == other._exdate  # type: ignore[attr-defined]
+    return rruleset_to_tuple(self) == rruleset_to_tuple(other)
 
 
 def rruleset_str(self: dateutil.rrule.rruleset):
@@ -82,23 +92,12 @@ def rruleset_str(self: dateutil.rrule.rruleset):
 
 
 def rruleset_repr(self: dateutil.rrule.rruleset):
-    return "rruleset(rrule={}, exrule={}, rdate={!r}, exdate={!r})".format(
-        self._rrule,  # type: ignore[attr-defined]
-        self._exrule,  # type: ignore[attr-defined]
-        self._rdate,  # type: ignore[attr-defined]
-        self._exdate,  # type: ignore[attr-defined]
-    )
+    rrule, rdate, exrule, exdate = map(list, rruleset_to_tuple(self))
+    return f"rruleset(rrule={rrule}, exrule={exrule}, rdate={rdate!r}, exdate={exdate!r})"
 
 
 def rruleset_hash(self: dateutil.rrule.rruleset):
-    return hash(
-        (
-            tuple(self._rrule),  # type: ignore[attr-defined]
-            tuple(self._rdate),  # type: ignore[attr-defined]
-            tuple(self._exrule),  # type: ignore[attr-defined]
-            tuple(self._exdate),  # type: ignore[attr-defined]
-        )
-    )
+    return hash(rruleset_to_tuple(self))
 
 
 dateutil.rrule.rrule.__eq__ = rrule_eq  # type: ignore[assignment]
-- 
2.43.0


From 4b21b8d260f3d4baf85e2e5e6b492de17e84a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 38/63] fix: zones switching to daylight saving across the date
 line don't break datetime functions

---
 src/ics/timezone/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 7f64a05..8ee866c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -12,7 +12,7 @@ from dateutil.tz._common import _tzinfo
 
 from ics.component import Component
 from ics.types import URL, ContextDict, DatetimeLike, UTCOffset
-from ics.utils import TIMEDELTA_ZERO, check_is_instance, ensure_datetime
+from ics.utils import TIMEDELTA_DAY, TIMEDELTA_ZERO, check_is_instance, ensure_datetime
 
 __all__ = [
     "ensure_utc",
@@ -251,7 +251,8 @@ class Timezone(Component, _tzinfo):
 
     def dst(self, dt):
         comp = self._find_observance(dt)
-        if comp.is_dst:
+        # zones moving across the date line change by a whole day, which no datetime function accepts as dst
+        if comp.is_dst and abs(comp.tzoffsetdiff) < TIMEDELTA_DAY:
             return comp.tzoffsetdiff
         else:
             return TIMEDELTA_ZERO
-- 
2.43.0


From ea300e76eb1d9415981b404b2dec24dca8b8c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:13 +0000
Subject: [PATCH 39/63] fix: zones without observances have an unknown offset
 instead of raising IndexError

---
 src/ics/timezone/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 8ee866c..77ce81e 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -183,6 +183,8 @@ class Timezone(Component, _tzinfo):
             return f"Timezone({self.tzid!r}, observances={self.observances!r})"
 
     def _find_observance(self, dt):
+        if not self.observances:
+            return None
         if len(self.observances) < 2:
             return self.observances[0]
 
@@ -244,13 +246,16 @@ class Timezone(Component, _tzinfo):
         return wall
 
     def utcoffset(self, dt):
-        if dt is None:
-            return None
+        comp = self._find_observance(dt) if dt is not None else None
+        if comp is None:
+            return None  # unknown
         else:
-            return self._find_observance(dt).tzoffsetto
+            return comp.tzoffsetto
 
     def dst(self, dt):
         comp = self._find_observance(dt)
+        if comp is None:
+            return None
         # zones moving across the date line change by a whole day, which no datetime function accepts as dst
         if comp.is_dst and abs(comp.tzoffsetdiff) < TIMEDELTA_DAY:
             return comp.tzoffsetdiff
@@ -258,7 +263,8 @@ class Timezone(Component, _tzinfo):
             return TIMEDELTA_ZERO
 
     def tzname(self, dt):
-        return self._find_observance(dt).tzname
+        comp = self._find_observance(dt)
+        return comp.tzname if comp is not None else None
 
 
 RRULE_EPOCH_START = dateutil.rrule.rrule(
-- 
2.43.0


From a2012918a0963dd5f8e8f540b8a0105494d3f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:13 +0000
Subject: [PATCH 40/63] fix: print timespans whose end lies after the last
 representable time

---
 src/ics/timespan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index a1af2b8..2359184 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -317,7 +317,10 @@ class Timespan:
             else:
                 suffix.append(str(begin))
 
-        end = self.get_effective_end()
+        try:
+            end = self.get_effective_end()
+        except OverflowError:  # later than datetime.max
+            end = None
         end_repr = self.get_end_representation()
         if end is not None:
             if end_repr == "end":
-- 
2.43.0


From 0464ea803d27a2d90057d1f1cd514846374ead2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:43 +0000
Subject: [PATCH 41/63] fix: quote parameter values that are empty once
 carriage returns are removed

---
 src/ics/contentline/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3a49377..e337010 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -179,8 +179,9 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
+                escaped = escape_param(pval)
                 if (
-                    not pval
+                    not escaped
                     or isinstance(pval, QuotedParamValue)
                     or re.search("[:;,]", pval)
                 ):
@@ -189,9 +190,9 @@ class ContentLine(RuntimeAttrValidation):
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
                     #  restricted characters or URI text.
                     # TODO Property parameter values that are not in quoted-strings are case-insensitive.
-                    yield f'"{escape_param(pval)}"'
+                    yield f'"{escaped}"'
                 else:
-                    yield escape_param(pval)
+                    yield escaped
         yield ":"
         yield self.value
         if newline:
-- 
2.43.0


From ad2d4de3decd806ca094ca6598102f90572d57cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:39 +0000
Subject: [PATCH 42/63] fix: attributes declared alike in a component and its
 subcomponent are imported

AttributeConverters identify the component being populated in the context by themselves, but compared equal when their
attributes were equal, so that a nested component with an equal attribute declaration failed an assertion.
---
 src/ics/converter/base.py  | 3 ++-
 src/ics/converter/value.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/base.py b/src/ics/converter/base.py
index 8f78e37..c4b58dc 100644
--- a/src/ics/converter/base.py
+++ b/src/ics/converter/base.py
@@ -89,7 +89,8 @@ class GenericConverter(abc.ABC):
         pass
 
 
-@attr.s(frozen=True)
+# instances are used as context keys, where equal attributes of nested components must not clash
+@attr.s(frozen=True, eq=False)
 class AttributeConverter(GenericConverter, abc.ABC):
     """
     A Converter that can serialize and populate a single of attribute of some Component.
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..ba2a14c 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -10,7 +10,7 @@ from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.valuetype.base import ValueConverter
 
 
-@attr.s(frozen=True)
+@attr.s(frozen=True, eq=False)
 class AttributeValueConverter(AttributeConverter):
     """
     An `AttributeConverter` that simply use one or more `ValueConverter`s to handle their (single) attribute.
-- 
2.43.0


From b2261cb6939e270e98560f080b744c0d2f4553f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 43/63] fix: unset optional subcomponents are not written
 instead of raising AttributeError

---
 src/ics/converter/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 4a2af7b..5a3984c 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -53,6 +53,8 @@ class MemberComponentConverter(AttributeConverter):
                 "ComponentConverter %s can't serialize extra params %s", (self, extras)
             )
         for value in self.get_value_list(parent):
+            if value is None:
+                continue
             # don't force self.meta for serialization, but use the meta registered for the concrete type of value
             output.append(value.to_container(context))
 
-- 
2.43.0


From 812bf951244a9ddc4ad6bd99a74f49c2f2a7f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 44/63] fix: immutable components with a mandatory list
 attribute can be imported

The pseudo component raised KeyError for the not yet set attribute.
---
 src/ics/converter/base.py      | 2 +-
 src/ics/converter/component.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/base.py b/src/ics/converter/base.py
index c4b58dc..5d46b31 100644
--- a/src/ics/converter/base.py
+++ b/src/ics/converter/base.py
@@ -151,7 +151,7 @@ class AttributeConverter(GenericConverter, abc.ABC):
         optionally creating a `multi_value_type` container if the attribute was `None`.
         """
         if self.multi_value_type is not None:
-            container = getattr(component, self.attribute.name)
+            container = getattr(component, self.attribute.name, None)
             if container is None:
                 container = self.multi_value_type()
                 setattr(component, self.attribute.name, container)
diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 5a3984c..55dd869 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -234,7 +234,10 @@ class MutablePseudoComponent:
         object.__setattr__(self, "_MutablePseudoComponent__data", data)
 
     def __getattr__(self, name: str) -> Any:
-        return self._MutablePseudoComponent__data[name]
+        try:
+            return self._MutablePseudoComponent__data[name]
+        except KeyError as e:
+            raise AttributeError(name) from e
 
     def __setattr__(self, name: str, value: Any) -> None:
         assert name not in ("NAME", "extra", "extra_params")
-- 
2.43.0


From 58b843c5d42301344eb2397ba8c20e6111ad8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 45/63] fix: parameters interpreted by the first of several
 values in one line apply to all of them

Parsing the first value of DATE-TIME lists removed the TZID, so that all further ones became floating.
---
 src/ics/converter/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index ba2a14c..822fcdc 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -57,10 +57,11 @@ class AttributeValueConverter(AttributeConverter):
             assert context[(self, "current_component")] is component
 
         if self.is_multi_value:
-            params, converter = self.__prepare_params(item)
+            line_params, converter = self.__prepare_params(item)
+            params = None
             for value in converter.split_value_list(item.value):
                 context[(self, "current_value_count")] += 1
-                params = copy_extra_params(params)
+                params = copy_extra_params(line_params)
                 parsed = converter.parse(
                     value, params, context
                 )  # might modify params and context
-- 
2.43.0


From 9e214b98a4d9bb20da9c7557a9ea5f6fc3139470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 46/63] fix: raw values, names and addresses that contain line
 breaks are refused instead of starting further lines on export

---
 src/ics/contentline/container.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index e337010..62f7bad 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -111,6 +111,12 @@ def unescape_param(string: str) -> str:
     return re.sub(r"\^(.?)", repl, string)
 
 
+def check_single_line(string: str) -> str:
+    if "\n" in string or "\r" in string:
+        raise ValueError(f"can't serialize {string!r}, as it contains a line break")
+    return string
+
+
 class Patterns:
     CONTROL = "\x00-\x08\x0A-\x1F\x7F"  # All the controls except HTAB
     DQUOTE = '"'
@@ -169,12 +175,12 @@ class ContentLine(RuntimeAttrValidation):
         return "".join(self._serialize_iter_unwrapped(newline))
 
     def _serialize_iter_unwrapped(self, newline=False):
-        yield self.name
+        yield check_single_line(self.name)
         for pname in self.params:
             if not self.params[pname]:
                 continue
             yield ";"
-            yield pname
+            yield check_single_line(pname)
             yield "="
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
@@ -194,7 +200,7 @@ class ContentLine(RuntimeAttrValidation):
                 else:
                     yield escaped
         yield ":"
-        yield self.value
+        yield check_single_line(self.value)
         if newline:
             yield "\r\n"
 
@@ -255,7 +261,7 @@ class Container(MutableSequence[ContainerItem]):
 
     def serialize_iter(self, newline=False, wrap=DEFAULT_LINE_WRAP):
         yield "BEGIN:"
-        yield self.name
+        yield check_single_line(self.name)
         yield "\r\n"
         for line in self:
             yield from line.serialize_iter(newline=True, wrap=wrap)
-- 
2.43.0


From b66aeffa92fb4ad1bc0c7ec15c4e32c166956002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:10 +0000
Subject: [PATCH 47/63] fix: time zones and all objects whose times use them
 can be copied deeply and pickled

---
 src/ics/timezone/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 77ce81e..dae90fd 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -168,11 +168,24 @@ class Timezone(Component, _tzinfo):
 
     def __attrs_post_init__(self):
         super().__attrs_post_init__()
+        self._init_cache()
+
+    def _init_cache(self):
         if len(self.observances) >= 2:
             # one lru cache per Timezone instance, so no Timezone hashing is needed
             func = functools.lru_cache(10)(self._find_observance_cachable)
             object.__setattr__(self, "_find_observance_cachable", func)
 
+    def __reduce__(self):
+        # tzinfo.__reduce__ would call the constructor without any arguments and keep the cache of the copied instance
+        state = dict(self.__dict__)
+        state.pop("_find_observance_cachable", None)
+        return object.__new__, (type(self),), state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._init_cache()
+
     def __str__(self):
         return self.tzid
 
-- 
2.43.0


From d8fae284d57c239582c4ce4ec3694ca4b09260be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:17 +0000
Subject: [PATCH 48/63] fix: time zone observances may have several TZNAME and
 COMMENT properties

---
 src/ics/converter/value.py   | 2 ++
 src/ics/timezone/__init__.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 822fcdc..8d7cc2d 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -73,6 +73,8 @@ class AttributeValueConverter(AttributeConverter):
                 params["__merge_next"] = ["FALSE"]
         else:
             if context[(self, "current_value_count")] > 0:
+                if self.attribute.metadata.get("ics_repeatable", False):
+                    return False
                 raise ValueError(
                     "attribute {} can only be set once, second occurrence is {}".format(
                         self.ics_name, item
diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index dae90fd..1d8e2fa 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -104,8 +104,9 @@ class TimezoneObservance(Component):
     tzoffsetto: UTCOffset = attr.ib()
     rrule: dateutil.rrule.rruleset = attr.ib(converter=rrule_to_rruleset, validator=instance_of(dateutil.rrule.rruleset))  # type: ignore[misc]
 
-    tzname: Optional[str] = attr.ib(default=None)
-    comment: Optional[str] = attr.ib(default=None)
+    # may occur more than once, where all further occurrences are kept as extras
+    tzname: Optional[str] = attr.ib(default=None, metadata={"ics_repeatable": True})
+    comment: Optional[str] = attr.ib(default=None, metadata={"ics_repeatable": True})
 
     is_dst: ClassVar[bool] = False
 
-- 
2.43.0


From 69fe0dc9a7b41aeeef57c7c16b90607ec5af4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:25 +0000
Subject: [PATCH 49/63] fix: names of parameters and value types are recognised
 in any letter case

---
 src/ics/converter/component.py      | 20 ++++++++++++++++----
 src/ics/converter/types/timespan.py |  2 +-
 src/ics/converter/value.py          |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 55dd869..c8b0aba 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -16,12 +16,21 @@ import attr
 from attr import Attribute
 
 from ics.component import Component
-from ics.contentline import Container
+from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter, GenericConverter, sort_converters
-from ics.types import ContainerItem, ContextDict
+from ics.types import ContainerItem, ContextDict, ExtraParams
 from ics.utils import check_is_instance
 
 
+def normalize_param_names(item: ContainerItem) -> ContainerItem:
+    if isinstance(item, ContentLine) and any(n != n.upper() for n in item.params):
+        params = ExtraParams(dict())
+        for name, values in item.params.items():
+            params.setdefault(name.upper(), []).extend(values)
+        return attr.evolve(item, params=params)
+    return item
+
+
 @attr.s(frozen=True)
 class MemberComponentConverter(AttributeConverter):
     """
@@ -153,8 +162,11 @@ class ComponentMeta:
     ):
         for line in container:
             consumed = False
-            for conv in self.converter_lookup.get(line.name, []):
-                if conv.populate(instance, line, context):
+            converters = self.converter_lookup.get(line.name, ())
+            # the names of parameters are case-insensitive
+            item = normalize_param_names(line) if converters else line
+            for conv in converters:
+                if conv.populate(instance, item, context):
                     consumed = True
             if not consumed:
                 instance.extra.append(line)
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 4aafdab..2555699 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -45,7 +45,7 @@ class TimespanConverter(AttributeConverter):
 
         params = copy_extra_params(item.params)
         if item.name in ["DTSTART", "DTEND", "DUE"]:
-            value_type = params.pop("VALUE", ["DATE-TIME"])
+            value_type = [v.upper() for v in params.pop("VALUE", ["DATE-TIME"])]
             if value_type == ["DATE-TIME"]:
                 precision = "second"
                 value = DatetimeConverter.parse(item.value, params, context)
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 8d7cc2d..682af3f 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -99,7 +99,7 @@ class AttributeValueConverter(AttributeConverter):
             if len(value_type) != 1:
                 raise ValueError(f"multiple VALUE type definitions in {line}")
             for converter in self.value_converters:
-                if converter.ics_type == value_type[0]:
+                if converter.ics_type == value_type[0].upper():
                     break
             else:
                 raise ValueError(f"can't convert {line} with {self}")
-- 
2.43.0


From bb7b8f8219ac65e1c493c18985bd48f298c2057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:33 +0000
Subject: [PATCH 50/63] fix: alarm actions are recognised in any letter case

---
 src/ics/alarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index c0ad881..6082e66 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -119,6 +119,8 @@ class NoneAlarm(BaseAlarm):
 
 
 def get_type_from_action(action_type) -> Type[BaseAlarm]:
+    # the names of actions are case-insensitive
+    action_type = action_type.upper()
     if action_type == "DISPLAY":
         return DisplayAlarm
     elif action_type == "AUDIO":
-- 
2.43.0


From 7875d050cc1c659433df04fd20c7972c3bcd188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:42 +0000
Subject: [PATCH 51/63] fix: UNTIL of observances is recognised in any letter
 case

---
 src/ics/converter/types/various.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index eb69d60..be48a22 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -33,11 +33,11 @@ def unique_justseen(iterable, key=None):
 
 def shift_until(line: ContentLine, pattern: str, offset: timedelta, suffix: str):
     def shift(match):
-        until = datetime.strptime(match.group(1), "%Y%m%dT%H%M%S") + offset
+        until = datetime.strptime(match.group(1).upper(), "%Y%m%dT%H%M%S") + offset
         return f"UNTIL={strftime(until, '%Y%m%dT%H%M%S')}{suffix}"
 
     line = line.clone()
-    line.value = re.sub(pattern, shift, line.value)
+    line.value = re.sub(pattern, shift, line.value, flags=re.IGNORECASE)
     return line
 
 
-- 
2.43.0


From 4edf16603ca43a2386bdcc64f0ee3d52ee638fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 52/63] fix: leap seconds are read as the second before them
 instead of being rejected

---
 src/ics/valuetype/datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 987e5d6..7b80cd9 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -92,6 +92,9 @@ class DatetimeConverterMixin:
                 "couldn't find format matching %r (%s chars), tried %s"
                 % (tr_value, len(tr_value), self.FORMATS)
             )
+        if "%S" in format and tr_value.endswith("60"):
+            # leap seconds are interpreted as the second before them
+            tr_value = tr_value[:-2] + "59"
         dt = datetime.strptime(tr_value, format)
 
         if fixed_utc:
-- 
2.43.0


From dc2837524525545e6a4863467cc27259dec746c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:57 +0000
Subject: [PATCH 53/63] fix: durations are read in any letter case

---
 src/ics/valuetype/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 7b80cd9..85f850b 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -316,6 +316,7 @@ class DurationConverterClass(ValueConverter[timedelta]):
         DAYS = {"D": 1, "W": 7}
         SECS = {"S": 1, "M": 60, "H": 3600}
 
+        value = value.upper()
         sign, i = 1, 0
         if value[i] in "-+":
             if value[i] == "-":
@@ -405,7 +406,7 @@ class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
         start, sep, end = value.partition("/")
         if not sep:
             raise ValueError("PERIOD '%s' must contain the separator '/'")
-        if end.startswith(("P", "+P")):  # period-start = date-time "/" dur-value
+        if end.upper().startswith(("P", "+P")):  # period-start = date-time "/" dur-value
             return Timespan(
                 begin_time=self._parse_dt(start, params, context),
                 duration=DurationConverter.parse(end, params, context),
-- 
2.43.0


From 22be3ec93433dd156609081b118a8ea54e42b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 54/63] fix: repeated parameters of one property are all kept

---
 src/ics/contentline/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/contentline/parser.py b/src/ics/contentline/parser.py
index cf42db5..13e7c18 100644
--- a/src/ics/contentline/parser.py
+++ b/src/ics/contentline/parser.py
@@ -158,7 +158,7 @@ class ContentLineParser:
 
         # read comma-separated and possibly quoted param values
         param_name = self.line[self.delim.end() : param_delim]
-        self.cl.params[param_name] = self.param_values = []
+        self.param_values = self.cl.params.setdefault(param_name, [])
         self.param_value_start = param_delim + 1
         self.next_delim()  # proceed to delim after param value list
         has_further_param_value = True
-- 
2.43.0


From c354d488e33b8cd994da50cbfbd378b9eda30278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:33 +0000
Subject: [PATCH 55/63] fix: reject time zone observances without any
 recurrence property with a ValueError instead of a KeyError

---
 src/ics/converter/types/various.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index be48a22..31f90e7 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -66,7 +66,9 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines = context.pop((self, "lines"))
+        lines = context.pop((self, "lines"), None)
+        if not lines:
+            raise ValueError(f"{component.NAME} is missing its DTSTART")
         offset = get_onset_offset(component)
         if offset is not None:
             lines = [
-- 
2.43.0


From 80d4f5a889854d08443043ecacc0e1ebebc0e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:43 +0000
Subject: [PATCH 56/63] fix: reject empty date and time values with a
 ValueError instead of an IndexError

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 85f850b..47e36da 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -80,7 +80,7 @@ class DatetimeConverterMixin:
             warnings.warn(
                 "DatetimeConverterMixin.parse called without available_tz dict in context"
             )
-        fixed_utc = value[-1].upper() == "Z"
+        fixed_utc = value[-1:].upper() == "Z"
 
         tr_value = value.translate(
             {ord("/"): "", ord("-"): "", ord("Z"): "", ord("z"): ""}
-- 
2.43.0


From 7731e855c04d5c1acdab02c5c7816a1c7ae36a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:28 +0000
Subject: [PATCH 57/63] fix: reject empty durations with a ValueError instead
 of an IndexError

---
 src/ics/valuetype/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 47e36da..105334e 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -318,11 +318,11 @@ class DurationConverterClass(ValueConverter[timedelta]):
 
         value = value.upper()
         sign, i = 1, 0
-        if value[i] in "-+":
+        if value.startswith(("-", "+")):
             if value[i] == "-":
                 sign = -1
             i += 1
-        if value[i] != "P":
+        if not value.startswith("P", i):
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
-- 
2.43.0


From 609bc86c186fc3b6f769427a67f3c8363566a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:37 +0000
Subject: [PATCH 58/63] fix: reject timezone observances whose onsets aren't
 local times, as no offset could be found with them

---
 src/ics/converter/types/various.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 31f90e7..a58d368 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -78,6 +78,10 @@ class RecurrenceConverter(AttributeConverter):
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        if offset is not None:
+            times = [r._dtstart for r in rrule._rrule + rrule._exrule]  # type: ignore
+            if any(t.tzinfo for t in times + rrule._rdate + rrule._exdate):  # type: ignore
+                raise ValueError("onsets of timezone observances must be local times")
         if any(line.name == "DTSTART" for line in lines):
             # dateutil appends DTSTART to the RDATEs, even if a RRULE already yields it
             if any(r._dtstart in r for r in rrule._rrule):  # type: ignore
-- 
2.43.0


From 063d5ecff32a183cc040e1849522ae6f62876d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:48 +0000
Subject: [PATCH 59/63] fix: reject recurrence rules with an INTERVAL of 0,
 which never end

---
 src/ics/converter/types/various.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index a58d368..2456c3e 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -78,6 +78,9 @@ class RecurrenceConverter(AttributeConverter):
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        if any(r._interval < 1 for r in rrule._rrule + rrule._exrule):  # type: ignore
+            # dateutil would loop forever when looking for the next instance
+            raise ValueError("INTERVAL must be a positive integer")
         if offset is not None:
             times = [r._dtstart for r in rrule._rrule + rrule._exrule]  # type: ignore
             if any(t.tzinfo for t in times + rrule._rdate + rrule._exdate):  # type: ignore
-- 
2.43.0


From 829e3ae97ce3d4aaa9e58e9c7ee787747ca84a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:59 +0000
Subject: [PATCH 60/63] fix: compare times in timezones without observances
 like floating ones instead of failing

---
 src/ics/timespan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 2359184..f2e54ec 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -107,7 +107,8 @@ class Normalization:
 
         else:
             value = ensure_datetime(value)
-            floating = value.tzinfo is None
+            # Python also considers a time floating if its timezone doesn't know any offset
+            floating = value.utcoffset() is None
             replace_timezone = lambda value, tzinfo: value.replace(tzinfo=tzinfo)
             convert_timezone = lambda value, tzinfo: value.astimezone(tz=tzinfo)
 
-- 
2.43.0


From 9dc722551c4bce1c976e9d67a8537a405e4d4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:34 +0000
Subject: [PATCH 61/63] fix: don't treat timezones called UTC as UTC if they
 have other offsets

---
 src/ics/timezone/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 1d8e2fa..5cb3487 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -67,6 +67,9 @@ def is_utc(value):
 
     if tz is None:
         return False
+    if isinstance(tz, Timezone) and any(obs.tzoffsetto for obs in tz.observances):
+        # a calendar might contain a timezone called UTC that has other offsets
+        return False
     if tz in [datetime.timezone.utc, dateutil.tz.UTC, UTC]:
         return True
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
-- 
2.43.0


From 766a53f916adcaca22f6a0be43ec5c429302c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:14 +0000
Subject: [PATCH 62/63] fix: reject lines outside of calendars in
 parse_multiple with a ValueError instead of a KeyError

---
 src/ics/icalendar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 6fe28eb..d360bf9 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -6,7 +6,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.component import Component
-from ics.contentline import Container, lines_to_containers, string_to_containers
+from ics.contentline import (
+    Container,
+    ContentLine,
+    lines_to_containers,
+    string_to_containers,
+)
 from ics.event import Event
 from ics.timeline import Timeline
 from ics.timespan import Normalization, NormalizationAction
@@ -79,6 +84,8 @@ class Calendar(CalendarAttrs):
         if imports is not None:
             if isinstance(imports, Container):
                 self.populate(imports)
+            elif isinstance(imports, ContentLine):
+                raise ValueError(f"can't populate from {type(imports)}")
             else:
                 if isinstance(imports, str):
                     containers = iter(string_to_containers(imports))
-- 
2.43.0


From 565a6b1c593ba5a8db46092ef287ab9795c51d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:23 +0000
Subject: [PATCH 63/63] fix: keep components named like a property, and
 properties named like a component, as extras instead of failing an assertion

---
 src/ics/converter/component.py      | 3 ++-
 src/ics/converter/types/timespan.py | 3 ++-
 src/ics/converter/types/timezone.py | 3 ++-
 src/ics/converter/types/various.py  | 8 +++++---
 src/ics/converter/value.py          | 3 ++-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index c8b0aba..cd64ac1 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -51,7 +51,8 @@ class MemberComponentConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            return False
         self.set_or_append_value(component, self.meta.load_instance(item, context))
         return True
 
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 2555699..6af7f39 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -37,7 +37,8 @@ class TimespanConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False
         seen_items = context.setdefault(CONTEXT_ITEMS, set())
         if item.name in seen_items:
             raise ValueError(f"duplicate value for {item.name} in {item}")
diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index 8ee3efe..f7d198f 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -42,7 +42,8 @@ class TimezoneObservanceMemberMeta(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            return False
         if item.name.upper() == TimezoneStandardObservance.NAME:
             self.set_or_append_value(
                 component, TimezoneStandardObservance.from_container(item, context)
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 2456c3e..9988808 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -57,7 +57,8 @@ class RecurrenceConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False
         key = (self, "lines")
         lines = context[key]
         if lines is None:
@@ -166,7 +167,8 @@ class AlarmActionConverter(GenericConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False
         assert issubclass(type(component), get_type_from_action(item.value))
         if isinstance(component, CustomAlarm):
             component._action = TextConverter.parse(item.value)
@@ -203,7 +205,7 @@ class AlarmMeta(ComponentMeta):
     ):
         clazz = get_type_from_action(
             one(
-                container["ACTION"],
+                (item for item in container["ACTION"] if isinstance(item, ContentLine)),
                 too_short="VALARM must have exactly one ACTION!",
                 too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
             ).value
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 682af3f..43a3124 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -48,7 +48,8 @@ class AttributeValueConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False
 
         if context[(self, "current_component")] is None:
             context[(self, "current_component")] = component
-- 
2.43.0

