From ae134aec8893de09ca849f6949990702a666fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 01/29] fix: SystemDisplayRotationLockButton belongs to the
 Generic Desktop page

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..24a6fa4 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From d48fca0833df615591d5a30faeab1f670951e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:29 +0000
Subject: [PATCH 02/29] fix: name usage constants after the attribute they are
 bound to

---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 24a6fa4..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From 971490c14753a6be3187ff947a036cfbf37748a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 03/29] fix: name the CmPerSec unit after the attribute it is
 bound to

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..dff0547 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From d7e06f050925e4ede358f39e64ba6104f61a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:56 +0000
Subject: [PATCH 04/29] fix: UsageRange indexing honours range bounds like a
 list

---
 hrdc/usage/usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..3977094 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -78,7 +78,7 @@ class UsageRange:
         return int(self.max) - int(self.min) + 1
 
     def __getitem__(self, no):
-        return Usage.lookup(int(self.min) + no)
+        return Usage.lookup(range(int(self.min), int(self.max) + 1)[no])
 
     def __iter__(self):
         for i in range(int(self.min), int(self.max) + 1):
-- 
2.43.0


From 6abab8e3fce4aad2e5daab53e001ec778a25f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:57 +0000
Subject: [PATCH 05/29] fix: account for the count of a Value when tracking
 report size

---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 1127f411500f8badf62a70bf3a858a2af3dde91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:59 +0000
Subject: [PATCH 06/29] fix: compile collections that have no usage

---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From d2a9b4a5e8496a6b7dc498f0bfd75e1e3ad4ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:53 +0000
Subject: [PATCH 07/29] fix: members following a nested Report belong to the
 enclosing Report

---
 hrdc/descriptor/streamer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 57f7da4..f4fb686 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.report_stack = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.report_stack.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -29,7 +31,13 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            outer_id = self.report_stack.pop()
+            if outer_id and outer_id != self.report_id:
+                self.report_id = outer_id
+                a(item.ReportID(outer_id))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From 2348ec69da01df06533c23000bb168a42aa25380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:08 +0000
Subject: [PATCH 08/29] fix: compile named arrays having a usage to an Array
 data item

A Variable data item with count 1 only ever uses the first usage of the
list, Named Arrays are Array items in a Logical collection (HUT 3.4.2.1).
---
 hrdc/descriptor/descriptor.py | 5 +----
 hrdc/descriptor/dumper.py     | 3 +--
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..b11924d 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,7 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            self.flags = self.Data | self.Array
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..2a623f7 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -61,8 +61,7 @@ if __name__ == "__main__":
             us = Usage.lookup(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
-                   and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
-                   and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
+                   and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
                 flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
-- 
2.43.0


From 1ecf1f7b6313f965c9844c249f4a11248d6aa30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 09/29] fix: only decompile Array items to Named Array values

A Variable data item in a NAry Logical collection is not a Named Array,
and a Named Array collection may hold more than a sole data item.
---
 hrdc/descriptor/extractor.py | 65 ++++++++++++------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..a3af99b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -13,7 +13,6 @@ class Extractor(Stream):
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
 
     def localsClear(self):
         self.usages = []
@@ -96,10 +95,7 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
-                else:
-                    self.leave(self.currentLevel)
+                self.leave(self.currentLevel)
 
                 if len(self.stack) == 0:
                     self.reportIdMerge(self.currentLevel)
@@ -116,11 +112,26 @@ class Extractor(Stream):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
 
-    def leave(self, level = None):
+    def leave(self, level):
         self.currentLevel = self.stack.pop()
-        if level:
-            self.reportIdMerge(level)
-            self.currentLevel.append(level)
+        self.reportIdMerge(level)
+
+        if self.isNamedArrayCollection(level):
+            array = level.members[0]
+            array.usage = level.usage
+            level = array
+
+        self.currentLevel.append(level)
+
+    def isNamedArrayCollection(self, level):
+        """Tells whether collection is the one surrounding a Named Array value"""
+        return level.kind == Collection.Logical \
+               and level.usage is not None \
+               and usage.NAry.test(level.usage) \
+               and len(level) == 1 \
+               and isinstance(level.members[0], Value) \
+               and bool(level.members[0].namedArray) \
+               and level.members[0].usage is None
 
     def reportIdMerge(self, level):
         level.__report_ids = set()
@@ -170,40 +181,8 @@ class Extractor(Stream):
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
-              and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
-              and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
-                       and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage)))):
-
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
-
-            uArray = list(map(self.usage, list(range(len(self.usages)))))
-            try:
-                uArray = usage.UsageRange.from_array(uArray)
-            except ValueError:
-                pass
-
-            self.addValue(
-                Value(i.tag, arrayCollection.usage,
-                      self.globalValue(item.GlobalItem.ReportSize),
-                      logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
-                      namedArray = uArray,
-                      designator = self.designator(),
-                      string = self.string(),
-                      )
-                )
-
-        # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
+        # Named array, enclosing collection (if any) is merged in leave()
+        elif self.usages and i.value == (item.DataItem.Data | item.DataItem.Array) and \
                  len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
 
-- 
2.43.0


From b54faf2c9d09dc6aa6c55e863ca12e3a5822bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:53 +0000
Subject: [PATCH 10/29] fix: keep data flags of named arrays

Arrays having flags (Null State, Relative, ...) were decompiled to values
with only their first usage left.
---
 hrdc/descriptor/descriptor.py | 2 +-
 hrdc/descriptor/extractor.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index b11924d..8c18513 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,7 +116,7 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            self.flags = self.Data | self.Array
+            self.flags = flags & ~(self.Constant | self.Variable)
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index a3af99b..df0bd60 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -182,7 +182,7 @@ class Extractor(Stream):
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
         # Named array, enclosing collection (if any) is merged in leave()
-        elif self.usages and i.value == (item.DataItem.Data | item.DataItem.Array) and \
+        elif self.usages and not (i.value & item.DataItem.Variable) and \
                  len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
 
@@ -196,6 +196,7 @@ class Extractor(Stream):
                 self.addValue(
                     Value(i.tag, usage = None,
                           size = self.globalValue(item.GlobalItem.ReportSize),
+                          flags = i.value,
                           logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                           namedArray = uArray,
                           designator = self.designator(),
-- 
2.43.0


From f9a443eba4576b8dabb379d4d1496bdcaa624bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:54 +0000
Subject: [PATCH 11/29] fix: dont print a message in the midst of the
 decompiled script

---
 hrdc/descriptor/extractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index df0bd60..68e328c 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -189,8 +189,7 @@ class Extractor(Stream):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
+            except ValueError:
                 pass
             for no in range(self.globalValue(item.GlobalItem.ReportCount)):
                 self.addValue(
-- 
2.43.0


From 83eb27851bd4fe26c7565a7cb4e518eda16be172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 12/29] fix: handle Push and Pop items in decompiler

---
 hrdc/descriptor/extractor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 68e328c..303948b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -65,7 +66,14 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalStack.append(dict(self.globals))
+
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalStack.pop()
+
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From 5944ae8cc5cbd1f0b1405f17ab9eb26d5d89760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 13/29] fix: decompile data items having several ranges of
 usages, strings or designators

---
 hrdc/descriptor/extractor.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 303948b..e1278b9 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -87,18 +87,9 @@ class Extractor(Stream):
 
             else:
                 self.locals[int(i.tag)] = i.value
+                self.rangesExpand()
 
         elif i.kind == item.Item.Main:
-            # Expand ranges
-            for min, max, target in [
-                (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
-                (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
-                (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
-                ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
-                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
-                        target.append(val)
-
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
@@ -116,6 +107,18 @@ class Extractor(Stream):
 
             self.localsClear()
 
+    def rangesExpand(self):
+        for min, max, target in [
+            (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
+            (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
+            (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
+            ]:
+            if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
+                for val in range(int(self.locals[int(min)]), int(self.locals[int(max)]) + 1):
+                    target.append(val)
+                self.locals[int(min)] = None
+                self.locals[int(max)] = None
+
     def enter(self, kind, usage):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
-- 
2.43.0


From 84a55243aefbb73d80da077bf7431e07cdf8ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:58 +0000
Subject: [PATCH 14/29] fix: decompile all the usages of a buffered bytes data
 item

---
 hrdc/descriptor/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index e1278b9..46fb76f 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -214,7 +214,8 @@ class Extractor(Stream):
                           )
                     )
 
-        elif i.value & item.DataItem.BufferedBytes:
+        elif i.value & item.DataItem.BufferedBytes \
+                 and max(len(self.usages), len(self.strings), len(self.designators)) <= 1:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
             self.addValue(
-- 
2.43.0


From 6460d744c48082e1d52b05a591d5ce4a40495763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 15/29] fix: retain position of unaligned data items in
 decompiler

---
 hrdc/descriptor/extractor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 46fb76f..3fb6b65 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -11,6 +11,7 @@ class Extractor(Stream):
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
         self.globalStack = []
+        self.reportSize = {}
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -151,6 +152,14 @@ class Extractor(Stream):
 
     def addValue(self, v):
         v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+
+        # Data item may actually not be on the boundary compiler would enforce
+        report = int(v.way), int(self.globalValue(item.GlobalItem.ReportID))
+        offset = self.reportSize.get(report, 0)
+        if v.alignment and offset % v.alignment:
+            v.alignment = 1
+        self.reportSize[report] = offset + int(v.size) * int(v.count)
+
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From 3b917f67a0dbecf9bfadf550b81d9d7013ef59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:24 +0000
Subject: [PATCH 16/29] fix: name usages after the usage page restored by Pop

---
 hrdc/stream/parser/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..d9ea0f0 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.usagePageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,12 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        elif i.kind == item.Item.Global and i.tag == item.GlobalItem.Push:
+            self.usagePageStack.append(self.usagePage)
+
+        elif i.kind == item.Item.Global and i.tag == item.GlobalItem.Pop and self.usagePageStack:
+            self.usagePage = self.usagePageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From 767b9e8da84e4a67e95b69ddd011e8ef3023638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:45 +0000
Subject: [PATCH 17/29] fix: read and write binary format from/to files opened
 in text mode

Command line tools open named files in text mode, not only stdin/stdout.
---
 hrdc/stream/formatter/binary.py | 3 +--
 hrdc/stream/parser/binary.py    | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..a9b22c4 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,7 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..fb539ab 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,7 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From 571fe07fc79607836d239e690ccc2a8d1706d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:46 +0000
Subject: [PATCH 18/29] fix: handle comment markers enclosed in other comments
 in C code

---
 hrdc/stream/comparer.py    | 5 +----
 hrdc/stream/parser/code.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..cd75d01 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", expected_code, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..0395475 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,7 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", self.input.read(*args), flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From 9c38c13b1e61c9204ae9fa6c54c866d971845757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:47 +0000
Subject: [PATCH 19/29] fix: decompile vendor-defined collection kinds

---
 hrdc/descriptor/dumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 2a623f7..7a61ebc 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From 1e48f3f81afaab1e4e7a59c8b1e6e8fa12e1d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:41 +0000
Subject: [PATCH 20/29] fix: resolve usage page of short usages, and mixed
 pages, when optimizing

- Usages already in their 16-bit form belong to the last declared page,
  emitting UsagePage(0) for them broke any stream coming from a parser.
- Usage page is concatenated to usages when main item is met (HID 1.11,
  6.2.2.8), items mixing pages have to retain 32-bit usages.
- Push and Pop change current page.
---
 hrdc/stream/optimizer/usage_page.py | 77 ++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..725bca3 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -6,26 +6,81 @@ class UsagePage(Optimizer):
     def __init__(self, stream):
         self.stream = stream
         self.page = None
+        self.pageStack = []
+        self.declared = None
+        self.declaredStack = []
+        self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
+        from ..item import Item, GlobalItem
+
+        if item.kind == Item.Global:
+            if item.tag == GlobalItem.UsagePage:
+                self.declared = item
+                return
+
+            elif item.tag == GlobalItem.Push:
+                self.declaredStack.append(self.declared)
+                if self.declared is not None:
+                    self.pending.append(self.declared)
+
+            elif item.tag == GlobalItem.Pop and self.declaredStack:
+                self.declared = self.declaredStack.pop()
+
+        self.pending.append(item)
+
+        if item.kind == Item.Main:
+            self.flush()
+
+    def flush(self):
+        from ..item import Item, GlobalItem, LocalItem, UsagePage
         from ...usage import Usage
 
-        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+        usageTags = (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum)
+        isUsage = lambda i: i.kind == Item.Local and i.tag in usageTags
+        usages = [i for i in self.pending if isUsage(i)]
+        short = [i for i in usages if not int(i.value) >> 16]
+        pages = {int(i.value) >> 16 : UsagePage(Usage.lookup(i.value).split()[0])
+                 for i in usages if int(i.value) >> 16}
+        if short and self.declared is not None:
+            pages[int(self.declared.value)] = self.declared
+
+        # As usage page applies to a main item as a whole, usages from
+        # other pages should stay in their 32-bit form.
+        if len(pages) == 1:
+            page, = pages.values()
+        elif short:
+            page = self.declared
+        else:
+            page = None
+
+        for item in self.pending:
+            if usages and (isUsage(item) or item.kind == Item.Main):
+                self.pageSet(page)
+
+            if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
+                self.pageSet(item)
+                continue
+
+            elif item.kind == Item.Global and item.tag == GlobalItem.Push:
+                self.pageStack.append(self.page)
 
-            sp, su = Usage.lookup(item.value).split()
+            elif item.kind == Item.Global and item.tag == GlobalItem.Pop:
+                self.page = self.pageStack.pop() if self.pageStack else None
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+            elif page is not None and isUsage(item) and int(item.value) >> 16 == int(page.value):
+                sp, su = Usage.lookup(item.value).split()
+                item = Item.itemclass(item.kind, item.tag)(su)
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+            self.stream.append(item)
 
-        self.stream.append(item)
+        self.pending = []
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+    def pageSet(self, page):
+        if page is not None and self.page != int(page.value):
+            self.page = int(page.value)
+            self.stream.append(page)
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From e431700f7a4ded166334106e0b48e6e4e26fcc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:43 +0000
Subject: [PATCH 21/29] fix: restore globals on Pop in global merging pass

---
 hrdc/stream/optimizer/global_merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..db77afb 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -18,6 +18,7 @@ class GlobalMerge(Optimizer):
             GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
             GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
             }
+        self.stack = []
 
     def close(self):
         self.stream.close()
@@ -32,6 +33,11 @@ class GlobalMerge(Optimizer):
                 self.stream.append(item)
             self.globals[item.tag] = item
 
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
+            elif item.tag == GlobalItem.Pop:
+                self.globals = self.stack.pop() if self.stack else {}
+
         elif item.kind == Item.Local:
             self.stream.append(item)
 
-- 
2.43.0


From a9cf95b22bd8e6f3a52f8110587b4ade9217e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:43 +0000
Subject: [PATCH 22/29] fix: dont merge usages out of their delimiters

---
 hrdc/stream/optimizer/range_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..c7861ee 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,7 +45,7 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
-- 
2.43.0


From 80807fc63ebca2d1ba0ebf250d12267098ebb530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:45 +0000
Subject: [PATCH 23/29] fix: only filter designator 0 when it is the sole
 designator of the main item

Also dont lose items pending at end of stream.
---
 hrdc/stream/optimizer/designator_uniq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..bd1fdc6 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,8 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +28,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From 9dfe55aed2b83d67b37bc38532633fe2255f1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:38 +0000
Subject: [PATCH 24/29] fix: track physical range in physical merging pass

Physical items were dropped even if a physical range was already set in
output stream, or if it was to be used by following data items.
---
 hrdc/stream/optimizer/physical_merge.py | 79 ++++++++++++++-----------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..c367456 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -4,50 +4,63 @@ class PhysicalMerge(Optimizer):
     precedence = 50
 
     def __init__(self, stream):
-        from ..item import Item, GlobalItem,\
-             LogicalMaximum, LogicalMinimum,\
-             PhysicalMaximum, PhysicalMinimum
+        from ..item import GlobalItem
 
         self.stream = stream
+        # Values from the input stream
+        self.changed = {
+            GlobalItem.LogicalMinimum: 0,
+            GlobalItem.LogicalMaximum: 0,
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
+            }
+        # Values from the output stream
         self.current = {
-            GlobalItem.LogicalMinimum: LogicalMinimum(0),
-            GlobalItem.LogicalMaximum: LogicalMaximum(0),
-            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
-            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
             }
-        self.changed = dict(list(self.current.items()))
+        self.stack = []
         self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
-
-        if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
+        from ..item import Item, GlobalItem
+
+        if item.kind == Item.Global and item.tag in self.changed:
+            self.changed[item.tag] = int(item.value)
+
+        if item.kind == Item.Main \
+               or item.kind == Item.Global \
+               and item.tag in (GlobalItem.Push, GlobalItem.Pop):
+            self.flush()
             self.stream.append(item)
-        else:
+
+            if item.kind == Item.Global and item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.changed), dict(self.current)))
+            elif item.kind == Item.Global and self.stack:
+                self.changed, self.current = self.stack.pop()
+
+        elif item.kind != Item.Global or item.tag not in self.current:
             self.pending.append(item)
 
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+    def flush(self):
+        from ..item import Item, GlobalItem
+
+        physical = [self.changed[GlobalItem.PhysicalMinimum],
+                    self.changed[GlobalItem.PhysicalMaximum]]
+        logical = [self.changed[GlobalItem.LogicalMinimum],
+                   self.changed[GlobalItem.LogicalMaximum]]
+
+        # Unset physical range already matches logical range
+        if any(self.current.values()) or physical != logical:
+            for tag, value in self.current.items():
+                if value != self.changed[tag]:
+                    self.current[tag] = self.changed[tag]
+                    self.stream.append(Item.itemclass(Item.Global, tag)(self.changed[tag]))
 
-    def close(self):
         for i in self.pending:
             self.stream.append(i)
+        self.pending = []
+
+    def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From bb8ce79e6301618aa25b4789d183c0417e202672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:20 +0000
Subject: [PATCH 25/29] fix: only merge data items when usages, strings and
 designators are kept

Merging arrays, items from different usage pages, items not all having
the same kinds of local items, or items across Push / Pop changed
meaning of descriptor.
---
 hrdc/stream/optimizer/main_merge.py | 52 ++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..6c27a18 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -13,6 +13,7 @@ class MainMerge(Optimizer):
         GlobalItem.UnitExponent,
         GlobalItem.ReportSize,
         GlobalItem.ReportID,
+        GlobalItem.UsagePage,
         )
 
     def __init__(self, stream):
@@ -22,8 +23,11 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.beforeLocals = {}
+        self.afterLocals = {}
         
         self.props = {}
+        self.stack = []
         
         for key in self.to_watch:
             self.props[key] = 0
@@ -33,6 +37,7 @@ class MainMerge(Optimizer):
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.afterLocals.setdefault(item.tag, []).append(item.value)
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -45,13 +50,23 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.flush()
+                self.stack.append((dict(self.props), self.afterCount))
+
+            elif item.tag == GlobalItem.Pop:
+                self.flush()
+                if self.stack:
+                    self.props, self.afterCount = self.stack.pop()
+
         else:
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
+                self.afterLocals = {}
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and not self.mergeable(item):
                 self.flush()
 
             flush_after = self.afterCount != 1
@@ -60,10 +75,39 @@ class MainMerge(Optimizer):
             self.beforeCount += self.afterCount
             self.afterMain = []
             self.mainItems.append(item)
+            for tag, values in self.afterLocals.items():
+                self.beforeLocals.setdefault(tag, []).extend(values)
+            self.afterLocals = {}
 
             if flush_after:
                 self.flush()
 
+    def mergeable(self, item):
+        """
+        Tells whether item can extend pending data items without
+        changing which usage, string and designator goes to which
+        field.
+        """
+        from ..item import DataItem, LocalItem
+
+        if item != self.mainItems[0]:
+            return False
+
+        # Locals of an Array are for the array as a whole
+        if not item.value & (DataItem.Constant | DataItem.Variable):
+            return False
+
+        before, after = self.beforeLocals, self.afterLocals
+
+        for tag in list(before) + list(after):
+            if tag not in (LocalItem.Usage, LocalItem.StringIndex, LocalItem.DesignatorIndex):
+                return False
+            if len(before.get(tag, [])) != self.beforeCount or tag not in after:
+                return False
+
+        usages = before.get(LocalItem.Usage, []) + after.get(LocalItem.Usage, [])
+        return len(set(int(u) >> 16 for u in usages)) <= 1
+
     def flush(self, until = 0):
         from ..item import ReportCount, Item, MainItem, GlobalItem
 
@@ -79,12 +123,10 @@ class MainMerge(Optimizer):
         self.mainItems = []
         self.afterMain = []
         self.beforeCount = 0
+        self.beforeLocals = {}
 
     def close(self):
+        self.flush()
         for i in self.beforeMain:
             self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
         self.stream.close()
-- 
2.43.0


From 6af249a7cc4964fd8e2b7c1f2ea52d02b4e9063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:18 +0000
Subject: [PATCH 26/29] fix: dont take negative collection kinds for standard
 ones

---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index dff0547..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 7296d28fbea5c3e60261791382f9c1ec4b706c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:44 +0000
Subject: [PATCH 27/29] fix: refuse item values that dont fit in 32 bits

---
 hrdc/stream/item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index fc2da2b..e728daa 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -58,9 +58,10 @@ class Item(metaclass = _ItemMeta):
 
     def __init__(self, value):
         self.value = value or 0
-        assert self.signed or int(self.value) >= 0, \
+        assert -0x80000000 <= int(self.value) < 0x80000000 if self.signed \
+               else 0 <= int(self.value) <= 0xffffffff, \
                ValueError("Unexpected value for %s: %d"
-                          % (self.__class__.__name__, self.value))
+                          % (self.__class__.__name__, int(self.value)))
         self.optionalValue = self.kind == self.Main and \
                              self.tag in (MainItem.Input, MainItem.EndCollection)
 
-- 
2.43.0


From 8f61dd8b059128815180e3b97a09fb8f505a7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:06 +0000
Subject: [PATCH 28/29] fix: only get back to the enclosing Report when leaving
 a nested one

---
 hrdc/descriptor/streamer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index f4fb686..b2db014 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -18,7 +18,7 @@ class Streamer(descriptor.Visitor):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
-            self.report_stack.append(self.report_id)
+            self.report_stack.append(e.id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -32,7 +32,8 @@ class Streamer(descriptor.Visitor):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
-            outer_id = self.report_stack.pop()
+            self.report_stack.pop()
+            outer_id = self.report_stack[-1] if self.report_stack else 0
             if outer_id and outer_id != self.report_id:
                 self.report_id = outer_id
                 a(item.ReportID(outer_id))
-- 
2.43.0


From 652c3f32ed47c6e4295e01dd29968e8154437286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 29/29] fix: fail when the output cannot be written

The output file was never flushed by the tools themselves. When the
last part of output could not be written (e.g. no space left), the
error came up at interpreter shutdown only, and tools ended with
status 0.
---
 hrdc/converter.py            | 1 +
 hrdc/descriptor/compiler.py  | 1 +
 hrdc/descriptor/extractor.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/hrdc/converter.py b/hrdc/converter.py
index 758f37b..4c2ad36 100644
--- a/hrdc/converter.py
+++ b/hrdc/converter.py
@@ -34,6 +34,7 @@ def _main():
 
     p = _parser(args.input, stream)
     p.read()
+    args.output.flush()
 
 if __name__ == '__main__':
     _main()
diff --git a/hrdc/descriptor/compiler.py b/hrdc/descriptor/compiler.py
index 4713f76..24d514a 100644
--- a/hrdc/descriptor/compiler.py
+++ b/hrdc/descriptor/compiler.py
@@ -32,3 +32,4 @@ def compile_main(desc):
     visitor = streamer.Streamer(output)
     desc.accept(visitor)
     output.close()
+    args.output.flush()
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 3fb6b65..5ab7980 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -290,6 +290,7 @@ def main():
 
     from .dumper import Dumper
     extractor.root.accept(Dumper(args.output))
+    args.output.flush()
 
 
 if __name__ == "__main__":
-- 
2.43.0

