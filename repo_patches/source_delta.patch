From 80fb344ccf4cc3ff3898b04fdd7fd8bcfb82b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:20 +0000
Subject: [PATCH 01/59] fix: recipToDuration cache ignored the scale argument

---
 converter21/humdrum/convert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/convert.py b/converter21/humdrum/convert.py
index 483a2a3..15ed063 100644
--- a/converter21/humdrum/convert.py
+++ b/converter21/humdrum/convert.py
@@ -46,18 +46,19 @@ class Convert:
     // default value: scale = 4 (duration in terms of quarter notes)
     // default value: separator = " " (sub-token separator)
     '''
-    # key is recip, value is duration
-    _knownRecipDurationCache: dict[str, HumNum] = {}
+    # key is (recip, scale), value is duration
+    _knownRecipDurationCache: dict[tuple[str, HumNumIn], HumNum] = {}
 
     @staticmethod
     def recipToDuration(recip: str, scale: HumNumIn = opFrac(4)) -> HumNum:
-        if recip in Convert._knownRecipDurationCache:
-            return Convert._knownRecipDurationCache[recip]
+        cacheKey: tuple[str, HumNumIn] = (recip, scale)
+        if cacheKey in Convert._knownRecipDurationCache:
+            return Convert._knownRecipDurationCache[cacheKey]
 
         output: HumNum = opFrac(0)
         if 'q' in recip:
             # grace note, ignore printed rhythm
-            Convert._knownRecipDurationCache[recip] = output
+            Convert._knownRecipDurationCache[cacheKey] = output
             return output  # 0
 
         subToken = recip.split(' ')[0]  # we're only interested in the first subtoken
@@ -98,7 +99,7 @@ class Convert:
             dotFactor = opFrac(dotFactor)
 
         output = opFrac(output * dotFactor * scale)
-        Convert._knownRecipDurationCache[recip] = output
+        Convert._knownRecipDurationCache[cacheKey] = output
         return output
 
     '''
-- 
2.43.0


From 17217f818f355b6a2b727c44b4821181be4cd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 02/59] fix: accept non-standard key signatures such as
 *k[f#g#]

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 48c11ee..7fc23cf 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -706,7 +706,7 @@ class M21Convert:
                 keySig[i:i + 2].upper() for i in range(0, len(keySig), 2)
             ]
             for pitch in alteredPitches:
-                if pitch[0] not in 'abcdefg':
+                if pitch[0] not in 'ABCDEFG':
                     # invalid accidentals in '*k[accidentals]'.
                     # e.g. *k[X] as seen in rds-scores: R700_Cop-w2p64h38m3-10.krn
                     badKeySig = True
-- 
2.43.0


From 26c0abe98cf7d2a4bb3e40bf1ce6bfd575023fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 03/59] fix: exporting a forward repeat after a dotted, short,
 tick or invisible barline crashed

---
 converter21/humdrum/m21convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 7fc23cf..60878c6 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3149,6 +3149,10 @@ class M21Convert:
             # just take the "more complex" of the two
             outputMType = max(outputMType, prevMeasureEndStyle.mType)
             outputVStyle = max(outputVStyle, prevMeasureEndStyle.vStyle)
+            if (outputVStyle, outputMType) not in [style.value for style in MeasureStyle]:
+                # there is no such repeat barline (e.g. dotted, or invisible), so keep the
+                # visual style of the repeat itself
+                outputVStyle = currMeasureBeginStyle.vStyle
 
         return M21Convert.getMeasureStyle(outputVStyle, outputMType)
 
-- 
2.43.0


From 2b54846730b5bcfc22d1303e1e15279f7229b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 04/59] fix: durations lost when splitting a complex duration
 at a tuplet offset

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 93b00ec..fa29219 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1416,7 +1416,7 @@ class M21Utilities:
             if foundIdx == 0:
                 output1 = beforeCrossing
             else:
-                output1 = totalDurs[:foundIdx - 1] + beforeCrossing
+                output1 = totalDurs[:foundIdx] + beforeCrossing
             if foundIdx == len(totalDurs) - 1:
                 output2 = afterCrossing
             else:
-- 
2.43.0


From ce309286e9ad953bad7ab308e6fd2c5be8b86055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 05/59] fix: hidden rests filling a gap were all placed at the
 start of the gap

---
 converter21/humdrum/measuredata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter21/humdrum/measuredata.py b/converter21/humdrum/measuredata.py
index e5ae3d7..59f70f2 100644
--- a/converter21/humdrum/measuredata.py
+++ b/converter21/humdrum/measuredata.py
@@ -323,6 +323,7 @@ class MeasureData:
                     )
                     if event is not None:
                         self.events.append(event)
+                    currentEmittedTime = opFrac(currentEmittedTime + duration)
 
                 currentEmittedTime = elStartTime
 
-- 
2.43.0


From 8707fea8c5c006f5343e578ab2e4399d1982f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:55 +0000
Subject: [PATCH 06/59] fix: &colon; was not decoded in layout parameters

---
 converter21/humdrum/humparamset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humparamset.py b/converter21/humdrum/humparamset.py
index fca414d..5c2f4e8 100644
--- a/converter21/humdrum/humparamset.py
+++ b/converter21/humdrum/humparamset.py
@@ -163,7 +163,7 @@ class HumParamSet:
                 self._ns2 = piece
                 continue
 
-            piece.replace('&colon;', ':')
+            piece = piece.replace('&colon;', ':')
             nameValueStrings = piece.split('=', 1)  # splits only on first instance of '='
             if len(nameValueStrings) == 1:
                 name = nameValueStrings[0]
-- 
2.43.0


From 4f0b3e1c56221c363178d02c10e1d773154868f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:17 +0000
Subject: [PATCH 07/59] fix: line-level layout parameters kept a stray ';' and
 lost text after a second '='

---
 converter21/humdrum/humdrumline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumline.py b/converter21/humdrum/humdrumline.py
index 1f9fd92..6b00cf5 100644
--- a/converter21/humdrum/humdrumline.py
+++ b/converter21/humdrum/humdrumline.py
@@ -1155,8 +1155,8 @@ class HumdrumLine(HumHash):
         value: str = ''
 
         for i in range(2, len(pieces)):
-            piece = re.sub('&colon', ':', pieces[i])
-            keyAndValue: list[str] = piece.split('=')
+            piece = pieces[i].replace('&colon;', ':')
+            keyAndValue: list[str] = piece.split('=', 1)  # split only on first instance of '='
 
             key = keyAndValue[0]
             if len(keyAndValue) == 1:
-- 
2.43.0


From 3d12b5cb5aad8941f38150814877d03b8aaa6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 08/59] fix: namespace queries given as 'NS1:NS2' never matched

---
 converter21/humdrum/humhash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/converter21/humdrum/humhash.py b/converter21/humdrum/humhash.py
index 136e05b..abd1674 100644
--- a/converter21/humdrum/humhash.py
+++ b/converter21/humdrum/humhash.py
@@ -71,11 +71,11 @@ def fixupNamespace1Namespace2(
         ns1, ns2 = ns2, ns1  # make ns2 be the one that is None, if one of them is
 
     if ns1 is not None and ns2 is None:
-        # check for a colon in ns1 -> generate ns1, ns2 from ns2 in that case
-        keyTuple = getKeyTuple(ns1)
-        if len(keyTuple) == 2:
-            ns1 = keyTuple[0]
-            ns2 = keyTuple[1]
+        # check for a colon in ns1 -> generate ns1, ns2 from ns1 in that case
+        namespaces: list[str] = ns1.split(':')
+        if len(namespaces) == 2:
+            ns1 = namespaces[0]
+            ns2 = namespaces[1]
 
     return (ns1, ns2)
 
-- 
2.43.0


From a38d8e249fdd69e53bb0fc408e35ea3c38d36822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:02 +0000
Subject: [PATCH 09/59] fix: reference records must have no space or tab before
 the colon

---
 converter21/humdrum/humdrumline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumline.py b/converter21/humdrum/humdrumline.py
index 6b00cf5..c6eb2f2 100644
--- a/converter21/humdrum/humdrumline.py
+++ b/converter21/humdrum/humdrumline.py
@@ -336,7 +336,7 @@ class HumdrumLine(HumHash):
             return False
         if ':' not in self.text:
             return False
-        preAndPostColon = ':'.split(self.text)
+        preAndPostColon = self.text.split(':', 1)
         if ' ' in preAndPostColon[0]:
             # there was a space pre-colon
             return False
@@ -362,7 +362,7 @@ class HumdrumLine(HumHash):
             return False
         if ':' not in self.text:
             return False
-        preAndPostColon = ':'.split(self.text)
+        preAndPostColon = self.text.split(':', 1)
         if ' ' in preAndPostColon[0]:
             # there was a space pre-colon
             return False
-- 
2.43.0


From d4b300724d837be1d4fd7b828a47ed64d774a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:05 +0000
Subject: [PATCH 10/59] fix: universalReferenceValue returned the key

---
 converter21/humdrum/humdrumline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumline.py b/converter21/humdrum/humdrumline.py
index c6eb2f2..fbc6f19 100644
--- a/converter21/humdrum/humdrumline.py
+++ b/converter21/humdrum/humdrumline.py
@@ -465,7 +465,7 @@ class HumdrumLine(HumHash):
         if not self.isUniversalReference:
             return ''
 
-        return _getKeyAndValue(self.text[4:])[0]
+        return _getKeyAndValue(self.text[4:])[1]
 
     '''
     //////////////////////////////
-- 
2.43.0


From 0fe9d4622352007e650051d06709d6831fcc9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:05 +0000
Subject: [PATCH 11/59] fix: named tempos (*MM[Adagio]) were never read

---
 converter21/humdrum/humdrumtoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index f03ac5c..2f0be61 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -1531,7 +1531,7 @@ class HumdrumToken(HumHash):
     def tempoName(self) -> str:
         if not self.isTempo:
             return ''
-        m = re.match(r'^\*MM[(.+)]', self.text)
+        m = re.match(r'^\*MM\[(.+)\]', self.text)
         if m:
             return m.group(1)
         return ''
-- 
2.43.0


From 7ee3e3351c8387909abc4bb2cdf4c33d0f332354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 12/59] fix: merging spines that were never split lost their
 track (or crashed)

---
 converter21/humdrum/humdrumfilebase.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 48c3392..bae64d2 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -351,6 +351,11 @@ class HumdrumFileBase(HumHash):
         # print(funcName(), 'self.isValid =', self.isValid, file=sys.stderr)
         return self.isValid
 
+    # e.g. '(1)a' and '(1)b', but not '1' and '2' (two spines that were never split)
+    @staticmethod
+    def _areTwoHalvesOfASplit(info1: str, info2: str) -> bool:
+        return info1.endswith(')a') and info2.endswith(')b') and info1[:-1] == info2[:-1]
+
     '''
     //////////////////////////////
     //
@@ -377,8 +382,7 @@ class HumdrumFileBase(HumHash):
 
         if numExtraSpines == 1:
             # two-spine merge
-            # compare all but trailing 'a' or 'b'
-            if info[startSpine][:-1] == info[startSpine + 1][:-1]:
+            if HumdrumFileBase._areTwoHalvesOfASplit(info[startSpine], info[startSpine + 1]):
                 # print(funcName(), 'merged spineInfo =', info[startSpine][1:-2], file=sys.stderr)
                 # strip off leading '(' and the trailing ')a' or ')b'
                 return info[startSpine][1:-2]
@@ -396,7 +400,7 @@ class HumdrumFileBase(HumHash):
         while len(newInfo) > 1:
             simplifiedSomething = False
             for i in range(1, len(newInfo)):
-                if newInfo[i - 1][:-1] == newInfo[i][:-1]:  # compare all but trailing a or b
+                if HumdrumFileBase._areTwoHalvesOfASplit(newInfo[i - 1], newInfo[i]):
                     simplifiedSomething = True
                     newInfo[i - 1] = ''             # we'll remove this later
                     newInfo[i] = newInfo[i][1:-2]   # strip off leading ( and trailing )a or )b
@@ -407,7 +411,7 @@ class HumdrumFileBase(HumHash):
                     newInfo2.append(infoStr)
 
             for i in range(1, len(newInfo2)):
-                if newInfo2[i - 1][:-1] == newInfo2[i][:-1]:  # compare all but trailing a or b
+                if HumdrumFileBase._areTwoHalvesOfASplit(newInfo2[i - 1], newInfo2[i]):
                     simplifiedSomething = True
                     newInfo2[i - 1] = ''             # we'll remove this later
                     newInfo2[i] = newInfo2[i][1:-2]  # strip off leading ( and trailing )a or ')b'
-- 
2.43.0


From 5f8e1beb71f06a20f91a25d07e67781fe1f123fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:46 +0000
Subject: [PATCH 13/59] fix: leading null tokens of a spine were resolved to
 data of another spine

---
 converter21/humdrum/humdrumfilestructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilestructure.py b/converter21/humdrum/humdrumfilestructure.py
index dfbd89c..cac5629 100644
--- a/converter21/humdrum/humdrumfilestructure.py
+++ b/converter21/humdrum/humdrumfilestructure.py
@@ -800,9 +800,10 @@ class HumdrumFileStructure(HumdrumFileBase):
         if not self.areStrandsAnalyzed:
             self.analyzeStrands()
 
-        data: HumdrumToken | None = None
+        data: HumdrumToken | None
         strandPair: TokenPair
         for strandPair in self._strand1d:
+            data = None  # nulls never refer to data in some other strand
             token: HumdrumToken | None = strandPair.first
             strandEnd: HumdrumToken | None = strandPair.last
             if t.TYPE_CHECKING:
-- 
2.43.0


From 58156bc86b72313f5ff2a60f74380e734cff2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 14/59] fix: a spine added before the first note was rejected

---
 converter21/humdrum/humdrumfilestructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfilestructure.py b/converter21/humdrum/humdrumfilestructure.py
index cac5629..5c93140 100644
--- a/converter21/humdrum/humdrumfilestructure.py
+++ b/converter21/humdrum/humdrumfilestructure.py
@@ -544,7 +544,7 @@ class HumdrumFileStructure(HumdrumFileBase):
     '''
     def analyzeRhythmOfFloatingSpine(self, spineStart: HumdrumToken) -> bool:
         durSum: HumNum = opFrac(0)
-        foundDur: HumNum = opFrac(0)
+        foundDur: HumNum | None = None
 
         # Find a known durationFromStart for a line in the Humdrum file, then
         # use that to calculate the starting duration of the floating spine.
@@ -560,7 +560,7 @@ class HumdrumFileStructure(HumdrumFileBase):
                     durSum = opFrac(durSum + token.duration)
                 token = token.nextToken0
 
-        if foundDur == 0:
+        if foundDur is None:
             return self.setParseError('Error: cannot link floating spine to score.')
 
         success: bool = self.assignDurationsToTrack(spineStart, foundDur - durSum)
-- 
2.43.0


From 37ec71af1954d1c67ecd40fb2950e26ff477580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:11 +0000
Subject: [PATCH 15/59] fix: HumdrumLine.beat counted sixteenth notes instead
 of quarter notes by default

---
 converter21/humdrum/humdrumline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/humdrum/humdrumline.py b/converter21/humdrum/humdrumline.py
index fbc6f19..c321a75 100644
--- a/converter21/humdrum/humdrumline.py
+++ b/converter21/humdrum/humdrumline.py
@@ -793,12 +793,12 @@ class HumdrumLine(HumHash):
 
         Instead of two routines for HumNumIn beatDur and str beatRecip, I'm writing one
         that takes either.  I'll make the default beat a quarter note (beatRecip = "4",
-        beatDur = Fraction(1, 4)).  Note that if the type of beatDuration is not str,
+        beatDur = Fraction(1)).  Note that if the type of beatDuration is not str,
         we'll call opFrac, so we actually support int, float, or Fraction here. But we
         always return HumNum (a.k.a. float or Fraction).
     '''
-    def beat(self, beatDuration: str | HumNumIn = Fraction(1, 4)) -> HumNum:
-        if isinstance(beatDuration, str):  # recip format string, e.g. '4' means 1/4
+    def beat(self, beatDuration: str | HumNumIn = Fraction(1)) -> HumNum:
+        if isinstance(beatDuration, str):  # recip format string, e.g. '4' means 1 quarter note
             beatDuration = Convert.recipToDuration(beatDuration)
         else:
             beatDuration = opFrac(beatDuration)
-- 
2.43.0


From 52be6337f8b708cc01e7bd2f2b59677461d481c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:06 +0000
Subject: [PATCH 16/59] fix: layout parameters of a chord note were lost next
 to ones for another note or key

---
 converter21/humdrum/humdrumtoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index 2f0be61..e39a065 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -2841,7 +2841,6 @@ class HumdrumToken(HumHash):
         if lcount == 0:
             return output
 
-        nparam: str = ''
         for p in range(0, lcount):
             hps: HumParamSet | None = self.getLinkedParameterSet(p)
             if hps is None:
@@ -2852,6 +2851,7 @@ class HumdrumToken(HumHash):
                 continue
 
             output = ''
+            nparam: str = ''
             for q in range(0, hps.count):
                 key: str = hps.getParameterName(q)
                 if key == keyName:
@@ -2879,7 +2879,7 @@ class HumdrumToken(HumHash):
                 # later).  Also not checking validity of
                 # string first (needs to start with a digit);
                 np: int = int(nparam)
-                if np == subtokenIndex + 1:
+                if output and np == subtokenIndex + 1:
                     return output
 
                 # not the output that is required,
-- 
2.43.0


From 23611e2506fe5306027a02649bceb8a45925cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:48 +0000
Subject: [PATCH 17/59] fix: MEI: keep gestural triple sharps and flats
 (@accid.ges)

---
 converter21/mei/m21objectconvert.py | 2 ++
 converter21/mei/meireader.py        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f38bf8d..cfbbe47 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -781,8 +781,10 @@ class M21ObjectConvert:
         'natural': 'n',
         'sharp': 's',
         'double-sharp': 'ss',
+        'triple-sharp': 'ts',
         'flat': 'f',
         'double-flat': 'ff',
+        'triple-flat': 'tf',
         'half-sharp': 'sd',
         'one-and-a-half-sharp': 'su',
         'half-flat': 'fu',
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index de0ed0f..5ce530b 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -565,7 +565,7 @@ class MeiReader:
     # for _accidGesFromAttr()
     # None is for when @accid is omitted
     _ACCID_GES_ATTR_DICT: dict[str | None, str | None] = {
-        's': '#', 'f': '-', 'ss': '##', 'ff': '--', 'n': 'n',
+        's': '#', 'f': '-', 'ss': '##', 'ff': '--', 'ts': '###', 'tf': '---', 'n': 'n',
         'su': '#~', 'sd': '~', 'fu': '`', 'fd': '-`',
         None: None
     }
-- 
2.43.0


From 60d8c49ad02cbe0fc79eb9f9a2cc9a0e5b3b6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:52 +0000
Subject: [PATCH 18/59] fix: MEI: read key signatures of ten or more
 sharps/flats

---
 converter21/mei/meireader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 5ce530b..b84303b 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -865,9 +865,9 @@ class MeiReader:
         elif signature.startswith('0'):
             return 0
         elif signature.endswith('s'):
-            return int(signature[0])
+            return int(signature[:-1])
         else:
-            return -1 * int(signature[0])
+            return -1 * int(signature[:-1])
 
     def _stemDirectionFromAttr(self, stemDirStr: str) -> str:
         return self._attrTranslator(stemDirStr, 'stem.dir', self._STEMDIR_ATTR_DICT)
-- 
2.43.0


From 249bde1a8598197470701f1d9ac301b21430f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:55 +0000
Subject: [PATCH 19/59] fix: MEI: write tick, short and heavy-heavy barlines,
 read heavy and dblheavy

---
 converter21/mei/m21objectconvert.py | 13 ++++++++++++-
 converter21/mei/meireader.py        |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index cfbbe47..95e8948 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -2027,7 +2027,10 @@ class M21ObjectConvert:
     _M21_BARLINE_TYPE_OR_DIRECTION_TO_MEI_BARLINE_TYPE: dict[str, str] = {
         'regular': '',  # or 'normal'? (but update meiMeasureBarlineAttrCombine if you do that)
         'heavy-light': '',  # treat heavy-light as normal (MEI has no such thing)
+        'tick': '',         # nor a tick...
+        'short': '',        # ... nor a short barline
         'heavy': 'heavy',
+        'heavy-heavy': 'dblheavy',
         'dotted': 'dotted',
         'dashed': 'dashed',
         'double': 'dbl',
@@ -2163,7 +2166,7 @@ class M21ObjectConvert:
         if attr2.startswith('rpt'):
             return attr2
 
-        # remaining possibilities are 'end', 'dbl', 'dashed', 'dotted'
+        # remaining possibilities are 'end', 'dbl', 'dashed', 'dotted', 'dblheavy', 'heavy'
         # in that (fairly arbitrary) order of priority
         if attr1 == 'end':
             return attr1
@@ -2181,6 +2184,14 @@ class M21ObjectConvert:
             return attr1
         if attr2 == 'dotted':
             return attr2
+        if attr1 == 'dblheavy':
+            return attr1
+        if attr2 == 'dblheavy':
+            return attr2
+        if attr1 == 'heavy':
+            return attr1
+        if attr2 == 'heavy':
+            return attr2
 
         # we shouldn't get here, but if we do, we didn't recognize either one.
         return ''
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index b84303b..09a40b2 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -663,7 +663,9 @@ class MeiReader:
         'dashed': 'dashed',
         'dotted': 'dotted',
         'dbl': 'double',
+        'dblheavy': 'heavy-heavy',
         'end': 'final',
+        'heavy': 'heavy',
         'invis': 'none',
         'single': 'regular',
     }
-- 
2.43.0


From 651f6a25fc71938a236c6d26cdf1015c0c876f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 20/59] fix: MEI: beats (tstamp) have up to six decimals, not
 six significant digits

---
 converter21/mei/m21objectconvert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 95e8948..cc36b1d 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -826,10 +826,14 @@ class M21ObjectConvert:
         else:
             # if you need more than minDecimals...
             # use as many as you need, up to maxDecimals.
-            formatStr = f':.{maxDecimals}g'
+            formatStr = f':.{maxDecimals}f'
 
         formatStr = '{' + formatStr + '}'
         output: str = formatStr.format(f)
+        numDecimals: int = len(output) - output.find('.') - 1 if '.' in output else 0
+        while numDecimals > minDecimals and output[-1] == '0':
+            output = output[:-1]
+            numDecimals -= 1
         return output
 
     @staticmethod
-- 
2.43.0


From 1bca351fe8a8b045f899fe6529a89af53eace085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:15 +0000
Subject: [PATCH 21/59] fix: write the hour, minute or second 0 (and the year
 0) of a date

---
 converter21/shared/m21utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index fa29219..b2bd920 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2393,7 +2393,8 @@ class M21Utilities:
             attr = M21Utilities._dateAttrNames[i]
             value = getattr(date, attr)
             error = getattr(date, attr + 'Error')
-            if not value:
+            if value is None or (attr == 'second' and value == 0 and date.minute is None):
+                # unknown (or a truncated fraction of a second)
                 msg.append('')
             else:
                 fmt = M21Utilities._dateAttrStrFormat[i]
-- 
2.43.0


From 243ad785114d315d8326b1f63fdc42d59bd3664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 22/59] fix: ISO dates with a time put the hour after the T

---
 converter21/shared/m21utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index b2bd920..f13a458 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2137,9 +2137,9 @@ class M21Utilities:
             sub = sub + suffix
             msg.append(sub)
 
-        out = '-'.join(msg[:4])
-        if len(msg) >= 4:
-            out += 'T' + ':'.join(msg[4:])
+        out = '-'.join(msg[:3])
+        if len(msg) > 3:
+            out += 'T' + ':'.join(msg[3:])
         return out
 
     # Conversions from str to m21.metadata.DatePrimitive types, and back.
-- 
2.43.0


From fb91b7e28c4144a40c488b104367fccb7a6ce00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:20 +0000
Subject: [PATCH 23/59] fix: keep the approximate/uncertain mark of a date in
 EDTF

---
 converter21/shared/m21utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index f13a458..116ae95 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2083,6 +2083,10 @@ class M21Utilities:
 
         if isinstance(dateObj, m21.metadata.DateSingle):
             if edtf:
+                if dateObj.relevance == 'approximate':
+                    return {'edtf': isodates[0] + '~'}
+                if dateObj.relevance == 'uncertain':
+                    return {'edtf': isodates[0] + '?'}
                 return {'edtf': isodates[0]}
             return {'isodate': isodates[0]}
         elif isinstance(dateObj, m21.metadata.DateRelative):
-- 
2.43.0


From adf4483f96b2eb619e3e7af740de5992e8bd1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:23 +0000
Subject: [PATCH 24/59] fix: leave impossible dates (such as month 14) as text
 instead of failing

---
 converter21/shared/m21utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 116ae95..5b84b1b 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2237,6 +2237,14 @@ class M21Utilities:
             if date is None:
                 # if dateString is unparseable, give up on date parsing of this whole metadata item
                 return None
+            try:
+                # music21 does not accept impossible dates (e.g. month 14), so neither do we
+                date._sanityCheck(
+                    year=date.year, month=date.month, day=date.day,
+                    hour=date.hour, minute=date.minute, second=date.second
+                )
+            except ValueError:
+                return None
             dates.append(date)
 
         if typeNeeded == m21.metadata.DateSingle:
-- 
2.43.0


From b339f6bf35c5d5f1b8d03c767b54613ddfb125fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:26 +0000
Subject: [PATCH 25/59] fix: keep the language of performers and editors in
 Humdrum reference records

---
 converter21/humdrum/m21convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 60878c6..f4c016f 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3418,7 +3418,13 @@ class M21Convert:
             # we generate 'XXX', 'XXX1', 'XXX2', etc
             hdKey += str(idx)
 
-        if isinstance(value, m21.metadata.Text):
+        if isinstance(value, m21.metadata.Contributor):
+            if value._names and value._names[0].language:
+                if value._names[0].isTranslated:
+                    hdKey += '@' + value._names[0].language.upper()
+                else:
+                    hdKey += '@@' + value._names[0].language.upper()
+        elif isinstance(value, m21.metadata.Text):
             if value.language:
                 if value.isTranslated:
                     hdKey += '@' + value.language.upper()
-- 
2.43.0


From d4c1b1014dddfad9e2464ccaf0aa18b643f9a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 26/59] fix: write metadata in a given language that has no
 Humdrum reference key

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index f4c016f..dd398d5 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3397,7 +3397,7 @@ class M21Convert:
             if uniqueName.startswith('humdrumraw:'):
                 hdKey = uniqueName[11:]
 
-        if isinstance(value, m21.metadata.Text):
+        if hdKey is not None and isinstance(value, m21.metadata.Text):
             if value.language:
                 if value.isTranslated:
                     hdKey += '@' + value.language.upper()
-- 
2.43.0


From 13728b32c4791a7a9316a66dd1855f3365401014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:32 +0000
Subject: [PATCH 27/59] fix: do not drop the unparseable dates of an ISO date
 range or list

---
 converter21/shared/m21utilities.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 5b84b1b..9216d9d 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1824,18 +1824,24 @@ class M21Utilities:
                 m21Dates: list[m21.metadata.Date] = (
                     M21Utilities.m21DateListFromIsoDateList(splitIsoDateRangeSelection(isodate))
                 )
+                if len(m21Dates) != 2:
+                    return None
                 return m21.metadata.DateBetween(m21Dates)
 
             # list (DateSelection)
             relevance: str = 'and' if isodate[0] == '{' else 'or'
             m21Dates = M21Utilities.m21DateListFromIsoDateList(splitIsoDateList(isodate))
+            if not m21Dates:
+                return None
             return m21.metadata.DateSelection(m21Dates, relevance=relevance)
 
         if '/' in isodate:
             if '..' not in isodate:
                 # regular range (DateBetween)
                 m21Dates = M21Utilities.m21DateListFromIsoDateList(isodate.split('/'))
-                return m21.metadata.DateBetween(m21Dates[:2])
+                if len(m21Dates) != 2:
+                    return None
+                return m21.metadata.DateBetween(m21Dates)
 
             # open ended range (DateRelative)
             if isodate.startswith('../'):
@@ -1883,8 +1889,10 @@ class M21Utilities:
         m21Dates: list[m21.metadata.Date] = []
         for isodate in isodates:
             m21Date: m21.metadata.Date | None = M21Utilities.m21DateFromIsoDate(isodate)
-            if m21Date is not None:
-                m21Dates.append(m21Date)
+            if m21Date is None:
+                # if any of the dates is unparseable, we can't represent the list
+                return []
+            m21Dates.append(m21Date)
         return m21Dates
 
     @staticmethod
-- 
2.43.0


From 5f07a10822955b10be7aea2fc48cb50de0001c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:16 +0000
Subject: [PATCH 28/59] fix: a doubly flatted bass of a Harte chord (such as
 C:maj/bb7) raised IntervalException

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 9216d9d..c194443 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3512,7 +3512,7 @@ class M21Utilities:
                 if bassAlter == -1:
                     bassIntvName = 'm' + bassNum
                 elif bassAlter < -1:
-                    bassIntvName = ('d' * (bassAlter - 1)) + bassNum
+                    bassIntvName = ('d' * (-bassAlter - 1)) + bassNum
                 elif bassAlter > 0:
                     bassIntvName = ('A' * bassAlter) + bassNum
                 else:
-- 
2.43.0


From e6486d037bf2623542108091e614d908e3677ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 29/59] fix: a chord symbol's bass that is a flatted root was
 written to Harte as degree 8 or 9, which has no such degree

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index c194443..838f19b 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3307,7 +3307,7 @@ class M21Utilities:
 
             newBass: m21.pitch.Pitch = deepcopy(bass)
             newBass.octave = root.octave
-            if newBass < root:
+            if newBass.diatonicNoteNum < root.diatonicNoteNum:
                 # we know newBass.octave and root.octave are not None
                 newBass.octave += 1  # type: ignore
 
-- 
2.43.0


From 7050b2f64d676d398accb5cd635b2e2c02df1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 30/59] fix: a Harte omission such as min(*3), as written for
 an omitted third, was ignored unless its accidental was repeated

---
 converter21/shared/m21utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 838f19b..779be8a 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3567,8 +3567,10 @@ class M21Utilities:
                     if deg.startswith('*'):
                         removeList.append(deg[1:])
                 for remDeg in removeList:
-                    if remDeg in impliedDegList:
-                        impliedDegList.remove(remDeg)
+                    # '*3' removes degree 3 of the shorthand, whether it is 'b3', '3' or '#3'
+                    for impliedDeg in copy(impliedDegList):
+                        if M21Utilities._degreeInt(remDeg) == M21Utilities._degreeInt(impliedDeg):
+                            impliedDegList.remove(impliedDeg)
                     if '*' + remDeg in degreeList:
                         degreeList.remove('*' + remDeg)
 
-- 
2.43.0


From 8ddb1cea58896f509ec40e6cf9dc1e553c17fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:25 +0000
Subject: [PATCH 31/59] fix: writing a chord symbol with altered and omitted
 degrees to Harte raised IndexError, lost omissions of altered degrees and
 took alterations as absolute

---
 converter21/shared/m21utilities.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 779be8a..a66f717 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3351,9 +3351,7 @@ class M21Utilities:
             for omit in omitList:
                 removedIt: bool = False
                 for deg in degreeList:
-                    if omit == deg:
-                        # we only remove it from current degree list if it has
-                        # the same number of #'s or b's
+                    if M21Utilities._degreeInt(omit) == M21Utilities._degreeInt(deg):
                         newDegreeList.remove(deg)
                         removedIt = True
                 if not removedIt:
@@ -3364,10 +3362,17 @@ class M21Utilities:
             # then the alters (if there are alters, there is no shorthand;
             # all the notes are represented in degreeList)
             for alter in alterList:
-                for i, deg in enumerate(degreeList):
+                for i, deg in enumerate(newDegreeList):
                     if M21Utilities._degreeInt(alter) == M21Utilities._degreeInt(deg):
-                        # we alter anything with the right degree number
-                        newDegreeList[i] = alter
+                        # we alter anything with the right degree number (the alteration
+                        # is relative to the degree as it is in the chord kind)
+                        semitones: int = (
+                            deg.count('#') - deg.count('b') + alter.count('#') - alter.count('b')
+                        )
+                        newDegreeList[i] = (
+                            ('#' if semitones > 0 else 'b') * abs(semitones)
+                            + str(M21Utilities._degreeInt(deg))
+                        )
 
             # then the adds
             newDegreeList.extend(addList)
-- 
2.43.0


From 71b6ebb43a4602262120147203ad28dac56979de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:28 +0000
Subject: [PATCH 32/59] fix: reading MEI chord symbol text that starts with an
 accidental never ended, and flats of a bass or of a degree were not
 understood

---
 converter21/shared/m21utilities.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index a66f717..dbab07e 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3057,26 +3057,22 @@ class M21Utilities:
 
         # Note how we choose between 'b' and '-' for output ('-' for any root/bass accidentals
         # 'b' for other notes).
-        useHyphen: bool = False  # for root
+        useHyphen: bool = True  # for root
 
         i = 0
         while i < len(text):
             ch = text[i]
             if i == 0:
-                # grab root plus any accidental(s)
+                # grab root
                 output += ch
                 i += 1
-                while ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
-                    output += M21Utilities.ACCIDENTAL_CHAR_TO_ASCII[ch]
-                    i += 1
-
-                # from now until we see a '/' (just before bass note, if present),
-                # we will change any 'b' ASCII accidental to '-'.
-                useHyphen = True
                 continue
 
             if ch == '/':
-                useHyphen = False  # for bass
+                useHyphen = True  # for bass
+            elif ch not in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII and text[i - 1] != '/':
+                # that's the end of the root (or bass) accidentals
+                useHyphen = False
 
             if ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
                 newStr: str = M21Utilities.ACCIDENTAL_CHAR_TO_ASCII[ch]
-- 
2.43.0


From a412710bdc12afcbace61da48b02084897520fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:32 +0000
Subject: [PATCH 33/59] fix: write a fermata above a note as ';' and one below
 it as ';<'

The writer had them the wrong way round: every ordinary (upright) fermata came
out as ';<', which the reader takes for a fermata below.
---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index dd398d5..c87d350 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2629,7 +2629,7 @@ class M21Convert:
 
             if isinstance(expr, m21.expressions.Fermata):
                 output += ';'
-                if expr.type == 'upright':
+                if expr.type == 'inverted':
                     output += '<'
                 continue
 
-- 
2.43.0


From 6da23b6d68400c53020f08ca472fb04fd1305b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:35 +0000
Subject: [PATCH 34/59] fix: write a fermata below a barline as one below

fermataStyleFromM21Fermata compared the fermata's style object with a string,
so an inverted fermata on a barline was always written as one above.
---
 converter21/humdrum/m21convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index c87d350..e5735dc 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3332,9 +3332,9 @@ class M21Convert:
             return FermataStyle.NoFermata
 
         output: FermataStyle = FermataStyle.Fermata
-        if m21Fermata.hasStyleInformation and m21Fermata.style == 'upright':
+        if m21Fermata.type == 'inverted':
             output = FermataStyle.FermataBelow
-#         elif m21Fermata.hasStyleInformation and m21Fermata.style == 'inverted':
+#         elif m21Fermata.type == 'upright':
 #             # leave it as a normal Fermata, this is m21's default
 #             output = FermataStyle.FermataAbove
 
-- 
2.43.0


From c2b90d11c2faaf49aaceac496807f3715290f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:38 +0000
Subject: [PATCH 35/59] fix: write the wavy line that starts with a trill

The result of re.sub was thrown away, so a trill with an extension line was
written as a trill without one.
---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index e5735dc..f92f582 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2645,7 +2645,7 @@ class M21Convert:
 
         if trillSeen and trillExtStartSeen:
             # replace a 't' or 'T' (trill sign) with a 'tt' or 'TT' (trill sign + wavy line)
-            re.sub(trillSeen, trillSeen + trillSeen, output, count=1)
+            output = output.replace(trillSeen, trillSeen[0] + trillSeen, 1)
 
         return output, layouts
 
-- 
2.43.0


From b2deb60e4fc62a39832bcbba0ec26eeed77a95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:34 +0000
Subject: [PATCH 36/59] fix: measure the interval of an ornament on a chord
 from the note it ornaments

music21 resolves the ornamental pitch from the last pitch of the chord; the writer
measured from the first one, so a mordent below a chord came out as one above it
and a half-step trill as a whole-step trill.
---
 converter21/humdrum/m21convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index f92f582..8ce5fe3 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2691,7 +2691,7 @@ class M21Convert:
 
             semitones: float = 0.0
             if gNote.pitches:
-                intv = m21.interval.Interval(gNote.pitches[0], orn.ornamentalPitch)
+                intv = m21.interval.Interval(gNote.pitches[-1], orn.ornamentalPitch)
                 semitones = float(intv.chromatic.semitones)
 
             if semitones == 0:
@@ -2724,7 +2724,7 @@ class M21Convert:
 
             semitones = 0.0
             if gNote.pitches:
-                intv = m21.interval.Interval(gNote.pitches[0], orn.ornamentalPitch)
+                intv = m21.interval.Interval(gNote.pitches[-1], orn.ornamentalPitch)
                 semitones = float(intv.chromatic.semitones)
 
             if semitones == 0:
@@ -2788,7 +2788,7 @@ class M21Convert:
             lowerCh: str
             semitones = 0.0
             if gNote.pitches:
-                intv = m21.interval.Interval(gNote.pitches[0], orn.upperOrnamentalPitch)
+                intv = m21.interval.Interval(gNote.pitches[-1], orn.upperOrnamentalPitch)
                 semitones = float(intv.chromatic.semitones)
 
             if semitones == 0:
@@ -2800,7 +2800,7 @@ class M21Convert:
                 upperCh = 'S'
 
             if gNote.pitches:
-                intv = m21.interval.Interval(gNote.pitches[0], orn.lowerOrnamentalPitch)
+                intv = m21.interval.Interval(gNote.pitches[-1], orn.lowerOrnamentalPitch)
                 semitones = float(intv.chromatic.semitones)
 
             if semitones == 0:
-- 
2.43.0


From 7b7363aaddff014921d09158c56e0140920b714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 37/59] fix: write a mordent on an unpitched note as a mordent,
 not as a trill

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 8ce5fe3..7fe103a 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2729,7 +2729,7 @@ class M21Convert:
 
             if semitones == 0:
                 # mordent on Unpitched.  Call it 'm'
-                output = 't'
+                output = 'm'
             elif abs(semitones) <= 1:
                 if semitones > 0:
                     output = 'm'
-- 
2.43.0


From e5c98d9e4fd58a9016c59aa67fd488fc49edf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:25 +0000
Subject: [PATCH 38/59] fix: a tie into a measure ends on the note that follows
 its start, not on a later note of the same pitch in another voice

---
 converter21/mei/meiscore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 16a8fff..54c0bfc 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -844,6 +844,11 @@ class MeiScore:
 
                 if (actualPartOffset < minPartOffset):
                     continue
+                if not stopsOnly and actualPartOffset != minPartOffset:
+                    # a note in a voice we haven't gotten to yet might start right at the
+                    # end of the tie's start note; we'll settle for this one (if we have
+                    # to) when we look again for tie stops only.
+                    continue
 
                 # we found a spanner whose startNote has the same pitches as
                 # note, so return that spanner.  note stops the tie
-- 
2.43.0


From 7edc365516f6b38460feaf9966a68c6906b23784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:06 +0000
Subject: [PATCH 39/59] fix: a tied MEI chord looks for the notes it is tied to
 in its own staff only

---
 converter21/mei/meireader.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 09a40b2..4824b47 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -390,7 +390,8 @@ class MeiReader:
         # MEI chord ties are weird.  If the chord is tied, it means that any note in the
         # chord that is the same as a subsequent note (or a note in a subsequent chord)
         # in the layer, is tied to said note.  This is tricky to implement: We stash off
-        # any tied chord we see in the self.pendingTiedChords dictionary (keyed by voice.id).
+        # any tied chord we see in the self.pendingTiedChords dictionary (keyed by staff number
+        # and voice.id).
         # This Voice/layer, and the matching Voice/layer in the next Measure are the only
         # places we will search for the ends of these note ties. A tie can be tied to any
         # note (in the layer) at any offset in either the measure containing the tie start,
@@ -403,7 +404,7 @@ class MeiReader:
         #       for the end ties.  If this is 2 when starting another measure, we stop
         #       searching and delete the pending tied chord tuple from self.pendingTiedChords.
         self.pendingTiedChords: dict[
-            str,
+            tuple[str, str],
             tuple[m21.chord.Chord, str, int]
         ] = {}
 
@@ -4868,7 +4869,7 @@ class MeiReader:
             pendingTiedChord: m21.chord.Chord | None = None
             pendingTieStr: str = ''
             pendingTiedChord, pendingTieStr, _ = (
-                self.pendingTiedChords.get(self.currVoiceId, (None, '', 2))
+                self.pendingTiedChords.get(self._voiceKey(), (None, '', 2))
             )
             if pendingTiedChord is not None:
                 # This note doesn't do this processing if it is within a chord.
@@ -4892,7 +4893,7 @@ class MeiReader:
 
                     if not stillPending:
                         # get rid of this voice's pending tied chord
-                        self.pendingTiedChords.pop(self.currVoiceId, None)
+                        self.pendingTiedChords.pop(self._voiceKey(), None)
 
             if self.staffNumberForNotes:
                 self.updateStaffAltersWithPitches(self.staffNumberForNotes, theNote.pitches)
@@ -5453,7 +5454,7 @@ class MeiReader:
         pendingTiedChord: m21.chord.Chord | None = None
         pendingTieStr: str = ''
         pendingTiedChord, pendingTieStr, _ = (
-            self.pendingTiedChords.get(self.currVoiceId, (None, '', 2))
+            self.pendingTiedChords.get(self._voiceKey(), (None, '', 2))
         )
         if pendingTiedChord is not None:
             for n1 in pendingTiedChord.notes:
@@ -5473,7 +5474,7 @@ class MeiReader:
 
             if not stillPending:
                 # get rid of this voice's pending tied chord
-                self.pendingTiedChords.pop(self.currVoiceId, None)
+                self.pendingTiedChords.pop(self._voiceKey(), None)
 
         if theArticList:
             theChord.articulations = theArticList
@@ -5566,7 +5567,7 @@ class MeiReader:
                 # we will look back at the next note/chord/rest in this layer.
                 # Note that we set numMeasuresSearched to 1, since we are now searching
                 # in that first measure.
-                self.pendingTiedChords[self.currVoiceId] = (theChord, tieStr, 1)
+                self.pendingTiedChords[self._voiceKey()] = (theChord, tieStr, 1)
 
         if elem.get('cue') == 'true':
             if t.TYPE_CHECKING:
@@ -6291,6 +6292,10 @@ class MeiReader:
                 return False
         return True
 
+    def _voiceKey(self) -> tuple[str, str]:
+        # Voice ids are only unique within a staff
+        return (self.staffNumberForNotes, self.currVoiceId)
+
     def layerFromElement(
         self,
         elem: Element,
@@ -6378,14 +6383,14 @@ class MeiReader:
         pendingTieStr: str = ''
         numMeasuresSearched: int = 2
         pendingTiedChord, pendingTieStr, numMeasuresSearched = (
-            self.pendingTiedChords.get(self.currVoiceId, (None, '', 2))
+            self.pendingTiedChords.get(self._voiceKey(), (None, '', 2))
         )
         if pendingTiedChord is not None:
             if numMeasuresSearched >= 2:
-                self.pendingTiedChords.pop(self.currVoiceId, None)
+                self.pendingTiedChords.pop(self._voiceKey(), None)
             else:
                 # increment numMeasuresSearched, so we'll stop searching next time
-                self.pendingTiedChords[self.currVoiceId] = (
+                self.pendingTiedChords[self._voiceKey()] = (
                     pendingTiedChord, pendingTieStr, numMeasuresSearched + 1
                 )
 
-- 
2.43.0


From 8f354d9d267ed0193ed05023c1a2318f1e2ed036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:16 +0000
Subject: [PATCH 40/59] fix: verse labels: search the label for a number, not
 the pattern for the label

---
 converter21/humdrum/humdrumfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 5befd24..033853d 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8141,7 +8141,7 @@ class HumdrumFile(HumdrumFileContent):
 
         contents: str = token.text[3:]
         output: str = ''
-        if re.search(contents, r'^\d+$'):
+        if re.search(r'^\d+$', contents):
             output = contents + '.'
         else:
             output = contents
-- 
2.43.0


From 9cbe7c0459d97afe518422ae61ba332057db7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:20 +0000
Subject: [PATCH 41/59] fix: lyrics: remove the backslash that escapes a
 leading '*' or '!'

---
 converter21/humdrum/humdrumfile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 033853d..3eb8dc5 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8030,6 +8030,7 @@ class HumdrumFile(HumdrumFileContent):
                 if labels:
                     verseLabel = self._getVerseLabelText(labels[0])
 
+            value: str
             vtexts: list[str] = []
             vtoks: list[HumdrumToken] = []
             vcolor: str = ''
@@ -8037,7 +8038,7 @@ class HumdrumFile(HumdrumFileContent):
             fstrack: int = fieldTok.subTrack
 
             if isSilbe:
-                value: str = fieldTok.text
+                value = fieldTok.text
                 value = value.replace('|', '')
                 value = value.replace('u2', 'ü')
                 value = value.replace('a2', 'ä')
@@ -8050,7 +8051,11 @@ class HumdrumFile(HumdrumFileContent):
                 vcolor = self._spineColor[ftrack][fstrack]
             else:
                 # not silbe
-                vtexts.append(fieldTok.text)
+                value = fieldTok.text
+                if value.startswith((r'\!', r'\*')):
+                    # escaped so that it is not taken for a Humdrum comment or interpretation
+                    value = value[1:]
+                vtexts.append(value)
                 vtoks.append(fieldTok)
                 vcolor = self._spineColor[ftrack][fstrack]
 
-- 
2.43.0


From bb83c3c8bc2ea89fd4033cc40db3074a7fdd6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:23 +0000
Subject: [PATCH 42/59] fix: tempo: find the *MM next to an OMD record in any
 spine, not only the first

---
 converter21/humdrum/humdrumfile.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 3eb8dc5..cdc4195 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -10023,15 +10023,17 @@ class HumdrumFile(HumdrumFileContent):
         return 0
 
     def _getMmTempoBeforeOMD(self, token: HumdrumToken | None) -> int:
-        current: HumdrumToken | None = token
-
-        if current and current.isData:
-            current = self.prevTokenIncludingGlobalToken(current)
+        if token is None:
+            return 0
 
-        while current and not current.isData:
-            if current.isTempo:
-                return current.tempoBPM
-            current = self.prevTokenIncludingGlobalToken(current)
+        # the OMD is for all spines, so any of them might have the *MM
+        for i in range(token.lineIndex - 1, -1, -1):
+            line: HumdrumLine = self._lines[i]
+            if line.isData:
+                break
+            for tok in line.tokens():
+                if tok.isTempo:
+                    return tok.tempoBPM
 
         return 0
 
@@ -10045,6 +10047,17 @@ class HumdrumFile(HumdrumFileContent):
         and returns 0 if nothing found.
     '''
     def _getMmTempoForward(self, token: HumdrumToken | None) -> tuple[int, HumdrumToken | None]:
+        if token is not None and not token.ownerLine.hasSpines:
+            # a global token is for all spines, so any of them might have the *MM
+            for i in range(token.lineIndex + 1, self.lineCount):
+                line: HumdrumLine = self._lines[i]
+                if line.isData:
+                    break
+                for tok in line.tokens():
+                    if tok.isTempo:
+                        return tok.tempoBPM, tok
+            return 0, None
+
         current: HumdrumToken | None = token
         if current and current.isData:
             current = self.nextTokenIncludingGlobalToken(current)
-- 
2.43.0


From fd6ea741d97d5337bc653cab62cc3fe1d30740d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:26 +0000
Subject: [PATCH 43/59] fix: dynamics: a placement sign after 'zz' (sfz) is one
 character further on

---
 converter21/humdrum/humdrumfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index cdc4195..bbbb351 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8635,6 +8635,8 @@ class HumdrumFile(HumdrumFileContent):
         # 'zy' or 'zzy' means it is hidden.
         if 'z' in token.text and 'zy' not in token.text:
             loc: int = token.text.index('z')
+            if token.text.startswith('zz', loc):
+                loc += 1
             subtrack: int = token.subTrack
             if subtrack == 1:
                 above = True
-- 
2.43.0


From 295c72b5bcf20623ce7ad91fc484389d577eca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:39 +0000
Subject: [PATCH 44/59] fix: reading an empty text reports that there is no
 exclusive interpretation

---
 converter21/humdrum/humdrumfilebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index bae64d2..62b8fd7 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -333,7 +333,7 @@ class HumdrumFileBase(HumHash):
     //    an istream or filename.
     '''
     def readString(self, contents: str) -> bool:
-        if contents[-1] == '\n':
+        if contents.endswith('\n'):
             contents = contents[0:-1]  # lose that last empty line (many editors add it)
 
         contentLines = contents.split('\n')
-- 
2.43.0


From b75db0c4d65aac42771e1f4a327fdcab20b29ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 45/59] fix: acceptSyntaxErrors: count the fields of the wrong
 kind that are replaced

---
 converter21/humdrum/humdrumfilebase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 62b8fd7..1eaa5a5 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -671,16 +671,19 @@ class HumdrumFileBase(HumHash):
                     if not token.isData:
                         token.text = '.'
                         lineChanged = True
+                        self.numSyntaxErrorsFixed += 1
             elif line.isInterpretation:
                 for token in line.tokens():
                     if not token.isInterpretation:
                         token.text = '*'
                         lineChanged = True
+                        self.numSyntaxErrorsFixed += 1
             elif line.isComment:
                 for token in line.tokens():
                     if not token.isComment:
                         token.text = '!'
                         lineChanged = True
+                        self.numSyntaxErrorsFixed += 1
             elif line.isBarline:
                 firstBarlineSeen: str = ''
                 for token in line.tokens():
@@ -693,6 +696,7 @@ class HumdrumFileBase(HumHash):
                     else:
                         token.text = '='
                     lineChanged = True
+                    self.numSyntaxErrorsFixed += 1
             if lineChanged:
                 line.createLineFromTokens()
 
-- 
2.43.0


From aae25533afa647e2cfcdafb7d009e63b232b54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:46 +0000
Subject: [PATCH 46/59] fix: acceptSyntaxErrors: lines made while repairing
 belong to the file and know their place

---
 converter21/humdrum/humdrumfilebase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 1eaa5a5..9ce4a02 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1030,8 +1030,11 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                     '!! ignore spiny line before first exinterp: ' + line.text
                 )
                 self.numSyntaxErrorsFixed += 1
+                self._lines[i].ownerFile = self
+                self._lines[i].lineIndex = i
                 self._lines[i].createTokensFromLine()
-                i += 1
+                # We do not increment i here: line i is now a global comment,
+                # and needs to be processed as such.
                 continue
 
             if not seenFirstExInterp and line.isExclusiveInterpretation:
@@ -1088,6 +1091,7 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
 
                     if numExtraSpines == 0:
                         # we were successful, insert that splitLine
+                        splitLine.ownerFile = self
                         splitLine.createLineFromTokens()
                         self.numSyntaxErrorsFixed += (line.tokenCount - len(dataType)) * 2
                         self.insertLine(i, splitLine)
-- 
2.43.0


From 0475701c9e94575283395f8403e0831a16d04786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 47/59] fix: refuse a spine that starts without an exclusive
 interpretation

---
 converter21/humdrum/humdrumfilebase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 9ce4a02..802cb15 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1043,6 +1043,12 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 dataType = []
                 sinfo = []
                 for j, token in enumerate(line.tokens()):
+                    if not token.isExclusiveInterpretation and not self.acceptSyntaxErrors:
+                        return self.setParseError(
+                            f'Error on line: {i+1}:\n'
+                            + f'Spine {j+1} has no exclusive interpretation\n'
+                            + f'LINE: {line.text}'
+                        )
                     dataType.append(token.text)
                     self.addToTrackStarts(token)
                     sinfo.append(str(j + 1))
-- 
2.43.0


From 6c2be55541c2d11a3a8863379f70974b58977fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 48/59] fix: acceptSyntaxErrors: continue with the next line
 after removing extra fields

---
 converter21/humdrum/humdrumfilebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 802cb15..00313b2 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1108,7 +1108,7 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
 
                     # not successful, fall back to just deleting the last token(s)
                     tokenRemoved: bool = False
-                    for i in range(len(dataType), line.tokenCount):
+                    for _ in range(len(dataType), line.tokenCount):
                         # pylint: disable=protected-access
                         line._tokens = line._tokens[:-1]
                         # pylint: enable=protected-access
-- 
2.43.0


From f637f6c4e205a2ad710ef06bb9d920f2cc5bad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:57 +0000
Subject: [PATCH 49/59] fix: refuse a single '*v' at the end of a line

---
 converter21/humdrum/humdrumfilebase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 00313b2..1d9f465 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1293,6 +1293,12 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 newType.append(dataType[i])
                 newInfo.append(spineInfo[i])
 
+        if mergeCount == 1 and not self.acceptSyntaxErrors:
+            self.setParseError(
+                'Error: single spine merge indicator \'*v\' at end of line: '
+                + f'{line.lineNumber}\n{line.text}')
+            return (False, [], [])
+
         # print(funcName(), 'ending dataType =', newType, file=sys.stderr)
         # print(funcName(), 'ending spineInfo =', newInfo, file=sys.stderr)
         return (True, newType, newInfo)
-- 
2.43.0


From 35c6c81d7fc3991e4e83cb0725a1160bf0a603ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:45 +0000
Subject: [PATCH 50/59] fix: staves after a subgroup of an MEI score were put
 before it, and got other staves' names and groups

---
 converter21/mei/meireader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 4824b47..3ba4417 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -3431,7 +3431,7 @@ class MeiReader:
                 )
 
             partsPerN: dict[str, m21.stream.Part] = {}
-            for staffN, part in zip(allPartNs, parts):
+            for staffN, part in zip(partNs, parts):
                 partsPerN[staffN] = part
 
             postWholeScore['staff-groups'] = staffGroups
@@ -3603,6 +3603,9 @@ class MeiReader:
         # Iterate over each sub-group (check for owned groups of staves between subgroups)
         # Process owned groups here, recurse to process sub-groups
         staffIdsToProcess: set[int | str] = set(groupDescTree.staffIds)
+        staffOrder: dict[int | str, int] = {
+            staffId: i for i, staffId in enumerate(groupDescTree.staffIds)
+        }
 
         makePartStaffs: bool = self._groupShouldContainPartStaffs(groupDescTree)
         if makePartStaffs:
@@ -3624,7 +3627,7 @@ class MeiReader:
             for ownedStaffId, ownedStaffInstrument in zip(
                 groupDescTree.ownedStaffIds, groupDescTree.ownedStaffInstruments
             ):
-                if ownedStaffId == firstStaffIdInSubgroup:
+                if staffOrder[ownedStaffId] > staffOrder[firstStaffIdInSubgroup]:
                     # we're done with this owned group (there may be another one later)
                     break
 
-- 
2.43.0


From a28162fd69a7a5a976b9185d2913b0a26e6ec565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 51/59] fix: a system decoration did not mention the staves
 that are in no group, so all groups were lost

---
 converter21/humdrum/humdrumwriter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 65ee4a0..4fdaaab 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -857,8 +857,20 @@ class HumdrumWriter:
             )
         )
 
+        if not staffGroupTrees:
+            return output
+
+        # staves that are in no group must be mentioned, too
+        ungroupedStaffNums: list[int] = [
+            staffNum for staffNum in sorted(staffNumbersByM21Part.values())
+            if not any(staffNum in sgtree.staffNums for sgtree in staffGroupTrees)
+        ]
         for sgtree in staffGroupTrees:
+            while ungroupedStaffNums and ungroupedStaffNums[0] < sgtree.lowestStaffNumber:
+                output += 's' + str(ungroupedStaffNums.pop(0))
             output, _ = self._appendRecursiveDecoString(output, sgtree)
+        for staffNum in ungroupedStaffNums:
+            output += 's' + str(staffNum)
 
         return output
 
-- 
2.43.0


From 58e3dd1e62e9298ad4967f5857617f97e2d90abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:52 +0000
Subject: [PATCH 52/59] fix: p1 and g1 in a system decoration matched the start
 of p10 and g10

---
 converter21/humdrum/humdrumfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index bbbb351..526f922 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -11337,7 +11337,7 @@ class HumdrumFile(HumdrumFileContent):
                         replacement += 's' + str(sNum)
                         if i < len(staves) - 1:
                             replacement += ','
-                    d = re.sub(gNumStr, replacement, d)
+                    d = re.sub(gNumStr + r'(?!\d)', replacement, d)
 
             # Part number expansion to staves:
             if partToStaves:
@@ -11350,7 +11350,7 @@ class HumdrumFile(HumdrumFileContent):
                         replacement += 's' + str(sNum)
                         if i < len(staves) - 1:
                             replacement += ','
-                    d = re.sub(pNumStr, replacement, d)
+                    d = re.sub(pNumStr + r'(?!\d)', replacement, d)
 
             # remove unexpanded groups and parts
             d = re.sub(r'p\d+', '', d)
-- 
2.43.0


From 88624dc5f2acf84148324f28babc6a6d5373516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:56 +0000
Subject: [PATCH 53/59] fix: three groups of the same staves next to another
 group were lost

---
 converter21/shared/m21utilities.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index dbab07e..b80a7c1 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1751,25 +1751,14 @@ class M21Utilities:
         # a top level parent.
         for i, child in enumerate(staffGroupTrees):
             smallestParent: M21StaffGroupTree | None = None
-            for parent in staffGroupTrees:
-                if parent is child or parent in child.children:
-                    continue
-
-                if i < len(staffGroupTrees) - 1:
-                    if child.staffNums.issubset(parent.staffNums):
-                        smallestParent = parent
-                        # we know it's smallest because they're sorted by size
-                        break
-                else:
-                    # last child; if there are no top-level parents yet, this guy is it, so
-                    # don't bother looking for smallest parent (this fixes a bug where there
-                    # are multiple possible top-level parents, all with the same staves in
-                    # them, and none of them end up at the top, because they are all subsets
-                    # of eachother).
-                    if topLevelParents:
-                        if child.staffNums.issubset(parent.staffNums):
-                            smallestParent = parent
-                            break
+            # Only look at the trees after this one: they are sorted by size, so any superset is
+            # there.  If several groups have exactly the same staves, then each is the parent of
+            # the one before it (so no group can end up as its own ancestor).
+            for parent in staffGroupTrees[i + 1:]:
+                if child.staffNums.issubset(parent.staffNums):
+                    smallestParent = parent
+                    # we know it's smallest because they're sorted by size
+                    break
 
             if smallestParent is None:
                 topLevelParents.append(child)
-- 
2.43.0


From a9aa70a90cf309d4d123e14820d1d151212b5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:59 +0000
Subject: [PATCH 54/59] fix: the staves of an MEI group were written out of
 order from the eighth staff on

---
 converter21/mei/meiscore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 54c0bfc..4de9c4c 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -342,7 +342,7 @@ class MeiScore:
         staffNums: list[int] = []
         for subgroup in sgtree.children:
             # 1. any staffNums before this subgroup
-            for staffNum in sgtree.staffNums:
+            for staffNum in sorted(sgtree.staffNums):
                 if staffNum >= subgroup.lowestStaffNumber:
                     # we're done with staffNums before this subgroup
                     break
-- 
2.43.0


From b855221bd4a76e74eca5bee7423fa1e00ba50e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:03 +0000
Subject: [PATCH 55/59] fix: plist and sameas references in MEI files did not
 refer to anything

---
 converter21/mei/m21objectconvert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index cc36b1d..8dc4719 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -201,7 +201,7 @@ class M21ObjectConvert:
 
         # This obj has already been emitted with the appropriate xml:id, and here
         # we just emit a stub object with @sameas set to that same xml:id.
-        attr: dict[str, str] = {'sameas': M21Utilities.getXmlId(obj, required=True)}
+        attr: dict[str, str] = {'sameas': '#' + M21Utilities.getXmlId(obj, required=True)}
         if isinstance(obj, m21.clef.Clef):
             tb.start('clef', attr)
             tb.end('clef')
@@ -1185,7 +1185,7 @@ class M21ObjectConvert:
             for el in spanner.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
         elif isinstance(spanner, M21TupletSpanner):
             tag = 'tupletSpan'
@@ -1196,7 +1196,7 @@ class M21ObjectConvert:
             for el in spanner.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
         elif isinstance(spanner, M21TieSpanner):
             if spanner.startTie.style != 'hidden':
@@ -1286,7 +1286,7 @@ class M21ObjectConvert:
             for el in arpeggio.getSpannedElements():
                 if plistStr:
                     plistStr += ' '
-                plistStr += M21Utilities.getXmlId(el, required=True)
+                plistStr += '#' + M21Utilities.getXmlId(el, required=True)
             attr['plist'] = plistStr
 
         arrow: str
-- 
2.43.0


From 75cd71e0648b779196debcadaea8eed727ffc5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:07 +0000
Subject: [PATCH 56/59] fix: all the layers of an MEI file had the same few ids

---
 converter21/shared/m21utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index b80a7c1..7b34047 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -4000,8 +4000,12 @@ class M21Utilities:
             return
         if not prefix:
             prefix = M21Utilities.getXmlIdPrefixFor(obj)
+        identifier: int | str = obj.id
+        if isinstance(obj, m21.stream.Voice):
+            # voice.id is a voice number ('1', '2', etc), so it is not unique in the score
+            identifier = id(obj)
         obj.xml_id = M21Utilities.makeXmlIdFrom(  # type: ignore
-            obj.id, prefix
+            identifier, prefix
         )
 
     @staticmethod
-- 
2.43.0


From bc6e163ee66edde0fea58255d6983d9a8b4a4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:10 +0000
Subject: [PATCH 57/59] fix: an MEI clef that is the same as another one was
 read as a treble clef

---
 converter21/mei/meireader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 3ba4417..3010287 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -5692,8 +5692,17 @@ class MeiReader:
         '''
         theClef: clef.Clef
 
-        shapeStr: str | None = elem.get('shape')
-        lineStr: str | None = elem.get('line')
+        # if this is the exact same clef as another one, that one has the shape/line/etc.
+        clefElem: Element = elem
+        sameAs: str = MeiShared.removeOctothorpe(elem.get('sameas', ''))
+        if sameAs and elem.get('shape') is None:
+            for otherClefElem in self.documentRoot.iter(f'{MEI_NS}clef'):
+                if otherClefElem.get(_XMLID) == sameAs:
+                    clefElem = otherClefElem
+                    break
+
+        shapeStr: str | None = clefElem.get('shape')
+        lineStr: str | None = clefElem.get('line')
         octaveShiftOverride: int | None = None
         if 'perc' == shapeStr:
             theClef = clef.PercussionClef()
@@ -5714,7 +5723,7 @@ class MeiReader:
             else:
                 theClef = clef.clefFromString(
                     shapeStr + lineStr,
-                    self._getOctaveShift(elem.get('dis'), elem.get('dis.place'))
+                    self._getOctaveShift(clefElem.get('dis'), clefElem.get('dis.place'))
                 )
 
         xmlId: str | None = elem.get(_XMLID)
-- 
2.43.0


From b8e173050f894587d3876039d24b79d1a3efdd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:13 +0000
Subject: [PATCH 58/59] fix: MEI beamSpans with a start and an end were ignored

---
 converter21/mei/meireader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 3010287..cf44965 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1056,7 +1056,7 @@ class MeiReader:
         # pre-processing for <beamSpan> elements
         for eachBeam in self.documentRoot.iterfind(
                 f'.//{MEI_NS}music//{MEI_NS}score//{MEI_NS}beamSpan'):
-            if eachBeam.get('startid', '') or eachBeam.get('endid', ''):
+            if not eachBeam.get('startid', '') or not eachBeam.get('endid', ''):
                 environLocal.warn(
                     _UNIMPLEMENTED_IMPORT_WITHOUT.format('<beamSpan>', '@startid and @endid')
                 )
-- 
2.43.0


From a06504c933b7934d1728c453b62e1e7c7912f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 59/59] fix: writing MEI left the ids it had given to notes of
 chords in the given score

---
 converter21/mei/meiscore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 4de9c4c..54d698f 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -544,11 +544,9 @@ class MeiScore:
         for sp in list(self.m21Score[M21TemporarySpanner]):
             self.m21Score.remove(sp)
 
-        for obj in self.m21Score.recurse():
-            # we don't put 'xml_id' in self.customM21AttrsToDelete, because
-            # then every object would be in that dictionary.
-            if hasattr(obj, 'xml_id'):
-                delattr(obj, 'xml_id')
+        # we don't put 'xml_id' in self.customM21AttrsToDelete, because
+        # then every object would be in that dictionary.
+        M21Utilities.removeAllXmlIds(self.m21Score)
 
         for obj, customAttrs in self.customM21AttrsToDelete.items():
             for customAttr in customAttrs:
-- 
2.43.0

