From be224e15c0ffd2f151da2518c3122eb4e7ef3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:55 +0000
Subject: [PATCH 01/70] fix: visual duration of double- and triple-dotted
 tuplet notes in Humdrum export

---
 converter21/humdrum/m21convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 48c11ee..6b2a907 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -1526,7 +1526,8 @@ class M21Convert:
             dur = m21Duration.quarterLength
             vdur = m21.duration.convertTypeToQuarterLength(m21Duration.type)
             if m21Duration.dots > 0:
-                vdur *= (1.5 * float(m21Duration.dots))
+                # 1 dot: 3/2, 2 dots: 7/4, 3 dots: 15/8, ...
+                vdur *= 2.0 - (0.5 ** m21Duration.dots)
             vdur = opFrac(vdur)
             inTuplet = True
         elif m21Duration.linked is False:
-- 
2.43.0


From 62bae2545c1d0f8bb36b7095a8ecc3e91f896393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:50 +0000
Subject: [PATCH 02/70] fix: Humdrum export crashed on barline combinations
 Humdrum cannot draw

---
 converter21/humdrum/m21convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 6b2a907..01f212f 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3168,6 +3168,10 @@ class M21Convert:
     def getMeasureStyle(vStyle: MeasureVisualStyle, mType: MeasureType) -> MeasureStyle:
         if not M21Convert._measureStyleLookup:
             M21Convert._computeMeasureStyleLookup()
+        if (vStyle, mType) not in M21Convert._measureStyleLookup:
+            # Humdrum can't express this combination (e.g. a dotted start repeat),
+            # so give up the visual style, and keep the repeat.
+            vStyle = MeasureVisualStyle.Regular
         return M21Convert._measureStyleLookup[(vStyle, mType)]
 
     measureVisualStyleFromM21BarlineType: dict[str, MeasureVisualStyle] = {
-- 
2.43.0


From f6b8494ea1e4bdfb76b91b1fcd205cfb7958d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:50 +0000
Subject: [PATCH 03/70] fix: Humdrum import dropped key signatures with double
 sharps or double flats

---
 converter21/humdrum/m21convert.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 01f212f..3a79d0f 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -116,6 +116,13 @@ class M21Convert:
         'f#c#g#d#a#': 5,
         'f#c#g#d#a#e#': 6,
         'f#c#g#d#a#e#b#': 7,
+        'f##c#g#d#a#e#b#': 8,
+        'f##c##g#d#a#e#b#': 9,
+        'f##c##g##d#a#e#b#': 10,
+        'f##c##g##d##a#e#b#': 11,
+        'f##c##g##d##a##e#b#': 12,
+        'f##c##g##d##a##e##b#': 13,
+        'f##c##g##d##a##e##b##': 14,
         'b-': -1,
         'b-e-': -2,
         'b-e-a-': -3,
@@ -123,6 +130,13 @@ class M21Convert:
         'b-e-a-d-g-': -5,
         'b-e-a-d-g-c-': -6,
         'b-e-a-d-g-c-f-': -7,
+        'b--e-a-d-g-c-f-': -8,
+        'b--e--a-d-g-c-f-': -9,
+        'b--e--a--d-g-c-f-': -10,
+        'b--e--a--d--g-c-f-': -11,
+        'b--e--a--d--g--c-f-': -12,
+        'b--e--a--d--g--c--f-': -13,
+        'b--e--a--d--g--c--f--': -14,
     }
 
     numSharpsToHumdrumStandardKeyStrings: dict[int, str] = {
-- 
2.43.0


From 182af1d46578a6eeaa282e5af0811b89320f0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 04/70] fix: non-standard Humdrum key signatures were never
 recognised on import nor exported

---
 converter21/humdrum/m21convert.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 3a79d0f..af34c0d 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -716,18 +716,14 @@ class M21Convert:
         if m21KeySig is None:
             # try non-standard key sig
             badKeySig: bool = False
-            alteredPitches: list[str] = [
-                keySig[i:i + 2].upper() for i in range(0, len(keySig), 2)
-            ]
-            for pitch in alteredPitches:
-                if pitch[0] not in 'abcdefg':
-                    # invalid accidentals in '*k[accidentals]'.
-                    # e.g. *k[X] as seen in rds-scores: R700_Cop-w2p64h38m3-10.krn
-                    badKeySig = True
-                    break
+            alteredPitches: list[str] = re.findall('[A-G](?:#+|-+)', keySig.upper())
+            if ''.join(alteredPitches) != keySig.upper():
+                # invalid accidentals in '*k[accidentals]'.
+                # e.g. *k[X] as seen in rds-scores: R700_Cop-w2p64h38m3-10.krn
+                badKeySig = True
 
             if not badKeySig:
-                m21KeySig = m21.key.KeySignature()
+                m21KeySig = m21.key.KeySignature(sharps=None)
                 m21KeySig.alteredPitches = alteredPitches
                 return m21KeySig  # there's no m21Key that will match a non-standard key sig
 
@@ -2529,7 +2525,11 @@ class M21Convert:
         keySig: m21.key.KeySignature | m21.key.Key
     ) -> HumdrumToken:
         keySigStr: str = '*k['
-        keySigStr += M21Convert.numSharpsToHumdrumStandardKeyStrings[keySig.sharps]
+        if keySig.sharps is None:
+            # non-standard key signature
+            keySigStr += ''.join(pitch.name.lower() for pitch in keySig.alteredPitches)
+        else:
+            keySigStr += M21Convert.numSharpsToHumdrumStandardKeyStrings[keySig.sharps]
         keySigStr += ']'
 
         return HumdrumToken(keySigStr)
-- 
2.43.0


From 38c19af17f42178f66adc240604956f722774977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:36 +0000
Subject: [PATCH 05/70] fix: Humdrum export flipped fermata direction on notes
 and lost it on barlines

---
 converter21/humdrum/m21convert.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index af34c0d..72e4ab7 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2644,7 +2644,7 @@ class M21Convert:
 
             if isinstance(expr, m21.expressions.Fermata):
                 output += ';'
-                if expr.type == 'upright':
+                if expr.type == 'inverted':
                     output += '<'
                 continue
 
@@ -3347,11 +3347,8 @@ class M21Convert:
             return FermataStyle.NoFermata
 
         output: FermataStyle = FermataStyle.Fermata
-        if m21Fermata.hasStyleInformation and m21Fermata.style == 'upright':
+        if m21Fermata.type == 'inverted':
             output = FermataStyle.FermataBelow
-#         elif m21Fermata.hasStyleInformation and m21Fermata.style == 'inverted':
-#             # leave it as a normal Fermata, this is m21's default
-#             output = FermataStyle.FermataAbove
 
         return output
 
-- 
2.43.0


From 3142f0d79e261a6f193836ed781f0eee30ed9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:48 +0000
Subject: [PATCH 06/70] fix: Humdrum export dropped the wavy line of a trill

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 72e4ab7..4cc26a5 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2660,7 +2660,7 @@ class M21Convert:
 
         if trillSeen and trillExtStartSeen:
             # replace a 't' or 'T' (trill sign) with a 'tt' or 'TT' (trill sign + wavy line)
-            re.sub(trillSeen, trillSeen + trillSeen, output, count=1)
+            output = output.replace(trillSeen, trillSeen[0] + trillSeen, 1)
 
         return output, layouts
 
-- 
2.43.0


From af609c4587a4694921b5a53cfbd4b5829fbcffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:48 +0000
Subject: [PATCH 07/70] fix: Humdrum export turned mordents on unpitched notes
 into trills

---
 converter21/humdrum/m21convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 4cc26a5..b1bba74 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2743,8 +2743,8 @@ class M21Convert:
                 semitones = float(intv.chromatic.semitones)
 
             if semitones == 0:
-                # mordent on Unpitched.  Call it 'm'
-                output = 't'
+                # mordent on Unpitched.  Call it 'm' (or 'w' for a lower mordent)
+                output = 'w' if isinstance(orn, m21.expressions.Mordent) else 'm'
             elif abs(semitones) <= 1:
                 if semitones > 0:
                     output = 'm'
-- 
2.43.0


From 64d9d6fa89bc0764f0fcda634213f30b628dd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 08/70] fix: Humdrum export dropped beams and slur ends of
 one-note chords

---
 converter21/humdrum/m21convert.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index b1bba74..f57acf7 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -1472,20 +1472,15 @@ class M21Convert:
             )
 
             # Add the chord signifiers as appropriate
+            # (all notes get 'z' or 'zz', expressions, articulations, stem directions)
+            postfix = postfix + sfOrSfz + exprStr + articStr + stemStr
             if noteIdx == 0:
-                # first note gets the slur starts
-                #   (plus 'z' or 'zz', expressions, articulations, stem directions)
+                # first note also gets the slur starts
                 prefix = slurStarts + prefix
-                postfix = postfix + sfOrSfz + exprStr + articStr + stemStr
-            elif noteIdx == len(m21Chord) - 1:
-                # last note gets the beams, and the slur stops
-                #   (plus 'z' or 'zz', expressions, articulations, stem directions)
-                postfix = postfix + sfOrSfz + exprStr + articStr + stemStr + beamStr + slurStops
-            else:
-                # the other notes in the chord just get 'z', 'zz', expressions, articulations,
-                # stem directions
-                postfix = postfix + sfOrSfz + exprStr + articStr + stemStr
-
+            if noteIdx == len(m21Chord) - 1:
+                # last note (which is also the first, in a one-note chord) also gets
+                # the beams, and the slur stops
+                postfix = postfix + beamStr + slurStops
 
             # put them in prefixPerNote, postFixPerNote, and layoutsForNotes
             prefixPerNote.append(prefix)
-- 
2.43.0


From 00e832f7285c714fc942ff1e1fe63369adb39e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:19 +0000
Subject: [PATCH 09/70] fix: Humdrum export wrote the placement of
 articulations it does not export

---
 converter21/humdrum/m21convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index f57acf7..7788cd5 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2561,6 +2561,9 @@ class M21Convert:
                 # check for caesura (isn't in the lookup because it's an RDF signifier)
                 caesuraChar: str = owner.reportCaesuraToOwner()
                 output += caesuraChar
+            else:
+                # not exported, so neither is its placement
+                continue
 
             # add any placement
             if artic.placement == 'below':
-- 
2.43.0


From 36bbf158ca9eb4b1453170e874c48d030f3dc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:07 +0000
Subject: [PATCH 10/70] fix: Humdrum import applied the note selection of one
 layout comment to the next one

---
 converter21/humdrum/humdrumtoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index f03ac5c..2c2f4ef 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -2841,7 +2841,6 @@ class HumdrumToken(HumHash):
         if lcount == 0:
             return output
 
-        nparam: str = ''
         for p in range(0, lcount):
             hps: HumParamSet | None = self.getLinkedParameterSet(p)
             if hps is None:
@@ -2851,6 +2850,8 @@ class HumdrumToken(HumHash):
             if hps.namespace2 != category:
                 continue
 
+            # the subtoken selection of one parameter set doesn't apply to the next one
+            nparam: str = ''
             output = ''
             for q in range(0, hps.count):
                 key: str = hps.getParameterName(q)
-- 
2.43.0


From 2ab6d0bb03686925f91fa92d8f6ef02cebe08f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 11/70] fix: Humdrum import took a tie's style and placement
 from the note where it ends

---
 converter21/humdrum/humdrumfile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 5befd24..2bbe6c6 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8388,8 +8388,14 @@ class HumdrumFile(HumdrumFileContent):
         # invisible ties (handled here in iohumdrum.cpp) are handled via style
         # (since that's how music21 describes them)
 
+        # The style and placement of a tie are specified where it starts.
         m21TieStart: m21.tie.Tie = found.setEndAndInsert(note, tstring)
-        self._addTieStyle(m21TieStart, token, tstring, subTokenIdx)
+        self._addTieStyle(
+            m21TieStart,
+            found.startToken,
+            found.startSubTokenStr,
+            found.startSubTokenIdx
+        )
 
         if found.wasInserted:
             # Only deleting the finished tie if it was successful.  Undeleted
-- 
2.43.0


From a8e04eca41307ad35ad6d4f7b2eeb7e36e32e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:06 +0000
Subject: [PATCH 12/70] fix: Humdrum import dropped the placement of sforzandos
 written on notes

---
 converter21/humdrum/humdrumfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 2bbe6c6..d0ab7db 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8636,6 +8636,9 @@ class HumdrumFile(HumdrumFileContent):
         # 'zy' or 'zzy' means it is hidden.
         if 'z' in token.text and 'zy' not in token.text:
             loc: int = token.text.index('z')
+            if token.text.startswith('zz', loc):
+                # any placement comes after the second 'z'
+                loc += 1
             subtrack: int = token.subTrack
             if subtrack == 1:
                 above = True
-- 
2.43.0


From edb22c83daaa7575a134059d16a290d296ea4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:49 +0000
Subject: [PATCH 13/70] fix: Humdrum import ignored the centered placement of
 dynamics

---
 converter21/humdrum/humdrumfile.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index d0ab7db..d4ddaec 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8818,15 +8818,12 @@ class HumdrumFile(HumdrumFileContent):
 
                 above = False
                 below = False
+                center = False
                 above, staffAdj = self._hasAboveParameterStaffAdj(dynTok, 'DY', staffAdj)
                 if not above:
                     below, staffAdj = self._hasBelowParameterStaffAdj(dynTok, 'DY', staffAdj)
                 if not above and not below:
-                    hasCenter, staffAdj = self._hasCenterParameterStaffAdj(token, 'DY', staffAdj)
-                    if hasCenter:
-                        above = False
-                        below = False
-                        center = True
+                    center, staffAdj = self._hasCenterParameterStaffAdj(dynTok, 'DY', staffAdj)
 
                 # if pcount > 0, then search for prefix and postfix text
                 # to add to the dynamic.
-- 
2.43.0


From 9772fa43a668aa659b7fd86abbacfa2e45e08224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 14/70] fix: MEI key signatures with more than nine accidentals

---
 converter21/mei/meireader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index de0ed0f..e866b53 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -865,9 +865,9 @@ class MeiReader:
         elif signature.startswith('0'):
             return 0
         elif signature.endswith('s'):
-            return int(signature[0])
+            return int(signature[:-1])
         else:
-            return -1 * int(signature[0])
+            return -1 * int(signature[:-1])
 
     def _stemDirectionFromAttr(self, stemDirStr: str) -> str:
         return self._attrTranslator(stemDirStr, 'stem.dir', self._STEMDIR_ATTR_DICT)
-- 
2.43.0


From 1e92d9fa2d57ce1b79ff6cdfd26baf365094d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 15/70] fix: hidden triple accidentals are lost in MEI

---
 converter21/mei/m21objectconvert.py | 2 ++
 converter21/mei/meireader.py        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f38bf8d..cfbbe47 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -781,8 +781,10 @@ class M21ObjectConvert:
         'natural': 'n',
         'sharp': 's',
         'double-sharp': 'ss',
+        'triple-sharp': 'ts',
         'flat': 'f',
         'double-flat': 'ff',
+        'triple-flat': 'tf',
         'half-sharp': 'sd',
         'one-and-a-half-sharp': 'su',
         'half-flat': 'fu',
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index e866b53..b84303b 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -565,7 +565,7 @@ class MeiReader:
     # for _accidGesFromAttr()
     # None is for when @accid is omitted
     _ACCID_GES_ATTR_DICT: dict[str | None, str | None] = {
-        's': '#', 'f': '-', 'ss': '##', 'ff': '--', 'n': 'n',
+        's': '#', 'f': '-', 'ss': '##', 'ff': '--', 'ts': '###', 'tf': '---', 'n': 'n',
         'su': '#~', 'sd': '~', 'fu': '`', 'fd': '-`',
         None: None
     }
-- 
2.43.0


From b8ae1097aef0ac8c68705b9c376ae97b72cca18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 16/70] fix: upright fermata below the staff becomes inverted
 in MEI

---
 converter21/mei/m21objectconvert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index cfbbe47..f5d61d1 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1582,6 +1582,9 @@ class M21ObjectConvert:
 
         if fermata.type == 'inverted':
             attr['form'] = 'inv'
+        elif fermata.placement == 'below':
+            # be explicit, readers assume a fermata below is inverted
+            attr['form'] = 'norm'
 
         if fermata.shape == 'square':
             attr['shape'] = 'square'
-- 
2.43.0


From 2bfb76d4b1b2135c21e68d1f18eb04a1a2b2c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 17/70] fix: MEI export of heavy-heavy, tick and short
 barlines, import of heavy ones

---
 converter21/mei/m21objectconvert.py | 13 ++++++++++++-
 converter21/mei/meireader.py        |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f5d61d1..f5627dc 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -2030,7 +2030,10 @@ class M21ObjectConvert:
     _M21_BARLINE_TYPE_OR_DIRECTION_TO_MEI_BARLINE_TYPE: dict[str, str] = {
         'regular': '',  # or 'normal'? (but update meiMeasureBarlineAttrCombine if you do that)
         'heavy-light': '',  # treat heavy-light as normal (MEI has no such thing)
+        'tick': '',  # treat tick and short as normal (MEI has no such thing)
+        'short': '',
         'heavy': 'heavy',
+        'heavy-heavy': 'dblheavy',
         'dotted': 'dotted',
         'dashed': 'dashed',
         'double': 'dbl',
@@ -2166,12 +2169,20 @@ class M21ObjectConvert:
         if attr2.startswith('rpt'):
             return attr2
 
-        # remaining possibilities are 'end', 'dbl', 'dashed', 'dotted'
+        # remaining possibilities are 'end', 'dblheavy', 'heavy', 'dbl', 'dashed', 'dotted'
         # in that (fairly arbitrary) order of priority
         if attr1 == 'end':
             return attr1
         if attr2 == 'end':
             return attr2
+        if attr1 == 'dblheavy':
+            return attr1
+        if attr2 == 'dblheavy':
+            return attr2
+        if attr1 == 'heavy':
+            return attr1
+        if attr2 == 'heavy':
+            return attr2
         if attr1 == 'dbl':
             return attr1
         if attr2 == 'dbl':
diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index b84303b..09a40b2 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -663,7 +663,9 @@ class MeiReader:
         'dashed': 'dashed',
         'dotted': 'dotted',
         'dbl': 'double',
+        'dblheavy': 'heavy-heavy',
         'end': 'final',
+        'heavy': 'heavy',
         'invis': 'none',
         'single': 'regular',
     }
-- 
2.43.0


From 80bb76f3613054dbf030bcaffe4300f02751a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 18/70] fix: form of MEI barLine elements is ignored

---
 converter21/mei/meireader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 09a40b2..3d32728 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6160,7 +6160,8 @@ class MeiReader:
 
         **Contained Elements not Implemented:** none
         '''
-        return self._barlineFromAttr(elem.get('rend', 'single'))
+        # @form since MEI 4, @rend before that
+        return self._barlineFromAttr(elem.get('form') or elem.get('rend', 'single'))
 
     def tupletFromElement(
         self,
-- 
2.43.0


From 3709fb087d8afb0fff1152796c7c92a6343e2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 19/70] fix: MEI tempo with startid is read as a dynamic

---
 converter21/mei/meireader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 3d32728..1e33e71 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1838,7 +1838,7 @@ class MeiReader:
                 name = 'Dynam'
             elif eachElem.tag.endswith('tempo'):
                 lowerName = 'tempo'
-                name = 'Dynam'
+                name = 'Tempo'
             else:
                 # shouldn't ever get here
                 continue
-- 
2.43.0


From 009e59020470cb05d6f64f85ebb5d332ad4dc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:12 +0000
Subject: [PATCH 20/70] fix: delayed MEI turn with tstamp is lost

---
 converter21/mei/meireader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 1e33e71..3a9d05f 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6932,8 +6932,7 @@ class MeiReader:
             canBeOnRest: bool = self._canBeOnRest(expression)
             isDelayedTurn: bool = (
                 isinstance(expression, expressions.Turn)
-                and hasattr(expression, 'delayed')
-                and expression.delayed == 'true'
+                and expression.isDelayed
             )
 
             for i, staffN in enumerate(staffNs):
-- 
2.43.0


From ca6c8ce0ce90da32b65e636f792876ca6f276be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 21/70] fix: MEI time stamps lose precision after beat ten

---
 converter21/mei/m21objectconvert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f5627dc..49befad 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -826,7 +826,11 @@ class M21ObjectConvert:
         else:
             # if you need more than minDecimals...
             # use as many as you need, up to maxDecimals.
-            formatStr = f':.{maxDecimals}g'
+            f = round(f, maxDecimals)
+            numDecimals: int = minDecimals
+            while numDecimals < maxDecimals and f != round(f, numDecimals):
+                numDecimals += 1
+            formatStr = f':.{numDecimals}f'
 
         formatStr = '{' + formatStr + '}'
         output: str = formatStr.format(f)
-- 
2.43.0


From 02f6c03156b37f3a596f890592e8afe864898585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:15 +0000
Subject: [PATCH 22/70] fix: hidden MEI time signatures become visible on
 import

---
 converter21/mei/meireader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 3a9d05f..a4406da 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -5847,6 +5847,9 @@ class MeiReader:
         if xmlId is not None:
             theTimeSig.id = xmlId
 
+        if elem.get('visible') == 'false':
+            theTimeSig.style.hideObjectOnPrint = True
+
         return theTimeSig
 
     def instrDefFromElement(
-- 
2.43.0


From b1770aa663f8896fd32ec68716a2f0b0ac074950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:50 +0000
Subject: [PATCH 23/70] fix: read <beamSpan> that has @startid and @endid (the
 check was inverted)

---
 converter21/mei/meireader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index a4406da..18c0abe 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -1055,7 +1055,7 @@ class MeiReader:
         # pre-processing for <beamSpan> elements
         for eachBeam in self.documentRoot.iterfind(
                 f'.//{MEI_NS}music//{MEI_NS}score//{MEI_NS}beamSpan'):
-            if eachBeam.get('startid', '') or eachBeam.get('endid', ''):
+            if not eachBeam.get('startid', '') or not eachBeam.get('endid', ''):
                 environLocal.warn(
                     _UNIMPLEMENTED_IMPORT_WITHOUT.format('<beamSpan>', '@startid and @endid')
                 )
-- 
2.43.0


From 95c5d0501f428c24ccc10d410327372e377402fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 24/70] fix: use the existing SMuFL glyph name for a 32nd-note
 metronome mark

---
 converter21/mei/m21objectconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 49befad..246aa2c 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -2011,7 +2011,7 @@ class M21ObjectConvert:
         'quarter': 'metNoteQuarterUp',
         'eighth': 'metNote8thUp',
         '16th': 'metNote16thUp',
-        '32nd': 'metNote32thUp',
+        '32nd': 'metNote32ndUp',
         '64th': 'metNote64thUp',
         '128th': 'metNote128thUp',
         '256th': 'metNote256thUp',
-- 
2.43.0


From 4d01a3c77ad86579b62af86c67eb0b45197d1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 25/70] fix: write the number of a metronome mark that has no
 text

---
 converter21/mei/m21objectconvert.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 246aa2c..431a488 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1930,10 +1930,7 @@ class M21ObjectConvert:
 
     @staticmethod
     def _convertMetronomeMarkToMixedText(mm: m21.tempo.MetronomeMark, tb: TreeBuilder):
-        if mm.text is None:
-            return
-
-        if not mm.textImplicit:
+        if mm.text is not None and not mm.textImplicit:
             tb.data(mm.text)
 
         if not mm.numberImplicit and mm.number is not None:
-- 
2.43.0


From 1a5ad8458b2e7c0694db7f593c38158fcaf98352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:32 +0000
Subject: [PATCH 26/70] fix: read an invisible stem of a chord

---
 converter21/mei/meireader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 18c0abe..bfb0fcf 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -5586,6 +5586,11 @@ class MeiReader:
             for n in theChord.notes:
                 n.stemDirection = theChord.stemDirection
 
+        if elem.get('stem.visible') == 'false':
+            theChord.stemDirection = 'noStem'
+            for n in theChord.notes:
+                n.stemDirection = theChord.stemDirection
+
         stemModStr: str | None = elem.get('stem.mod')
         if stemModStr is not None:
             # just add it as an attribute, to be read by callers if they like
-- 
2.43.0


From 3ac0dff9e9b97ce444fb7f127534b3f1ff33af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 27/70] fix: MeiScore: report an unsupported meiVersion instead
 of building a document without its root element

---
 converter21/mei/meiscore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 16a8fff..58b65c7 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -18,6 +18,7 @@ from music21.common import OffsetQL
 
 # from converter21.mei import MeiExportError
 from converter21.mei import MeiInternalError
+from converter21.mei import MeiExportError
 from converter21.mei import MeiMetadataItem
 from converter21.mei import MeiMetadata
 from converter21.mei import MeiMeasure
@@ -163,6 +164,10 @@ class MeiScore:
                 'xmlns': 'http://www.music-encoding.org/ns/mei',
                 'meiversion': '5.0+CMN'
             })
+        else:
+            raise MeiExportError(
+                f'invalid meiVersion: {self.meiVersion}. Must start with \'4\' or \'5\'.'
+            )
 
         # meiHead
         self.metadata.makeRootElement(tb)
-- 
2.43.0


From 662c0268da924a966a829d43742bec06267d3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 28/70] fix: MeiScore.deannotateScore: remove xml_id from the
 notes in chords, too

---
 converter21/mei/meiscore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 58b65c7..f5cc9e9 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -549,11 +549,9 @@ class MeiScore:
         for sp in list(self.m21Score[M21TemporarySpanner]):
             self.m21Score.remove(sp)
 
-        for obj in self.m21Score.recurse():
-            # we don't put 'xml_id' in self.customM21AttrsToDelete, because
-            # then every object would be in that dictionary.
-            if hasattr(obj, 'xml_id'):
-                delattr(obj, 'xml_id')
+        # we don't put 'xml_id' in self.customM21AttrsToDelete, because
+        # then every object would be in that dictionary.
+        M21Utilities.removeAllXmlIds(self.m21Score)
 
         for obj, customAttrs in self.customM21AttrsToDelete.items():
             for customAttr in customAttrs:
-- 
2.43.0


From 5c5c0fce0b3040d3fc9b0fa242f122cc1b2f4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 29/70] fix: MeiWriter.write: clean up the score when the
 export fails, too

---
 converter21/mei/meiwriter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 47e3f6e..eaf8991 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -78,6 +78,15 @@ class MeiWriter:
         #   but MEI scores are {Measure1{Staff1, Staff2} .. MeasureN{Staff1, Staff2}}.
         meiScore: MeiScore = MeiScore(self._m21Score, self.meiVersion)
 
+        try:
+            self._writeMeiScore(meiScore, fp)
+        finally:
+            # clean up all the notes-to-self MeiScore wrote in the score.
+            meiScore.deannotateScore()
+
+        return True
+
+    def _writeMeiScore(self, meiScore: MeiScore, fp) -> None:
         # Here we convert the MeiScore to an in-memory tree of Elements
         meiElement: Element = meiScore.makeRootElement()
         indent(meiElement, space='   ', level=0)
@@ -108,8 +117,3 @@ class MeiWriter:
         fp.write(prefix)
         ElementTree(meiElement).write(fp, encoding='unicode')
         fp.write('\n')
-
-        # clean up all the notes-to-self MeiScore wrote in the score.
-        meiScore.deannotateScore()
-
-        return True
-- 
2.43.0


From f6724d26eb0cb768e397700329d50b01c69ca2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 30/70] fix: MeiReader: the unitdur of a bTrem counts the flags
 of its note, which are not tremolo marks

---
 converter21/mei/meireader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index bfb0fcf..5f54278 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6022,6 +6022,10 @@ class MeiReader:
         tremolo: expressions.Tremolo = expressions.Tremolo()
         unitDurStr: str = elem.get('unitdur', '')
         numMarks: int = self._DUR_TO_NUMBEAMS.get(unitDurStr, 0)
+        if numMarks > 0:
+            # some of those beams are the flags of the note or chord itself
+            durQLNoDots: float = m21.duration.typeToDuration.get(noteOrChord.duration.type, 0.0)
+            numMarks = max(0, numMarks - self._QL_TO_NUMFLAGS.get(durQLNoDots, 0))
         if numMarks == 0:
             # check the note or chord itself to see if it has @stem.mod = '3slashes' or the like
             if hasattr(noteOrChord, 'meireader_stem_mod'):
-- 
2.43.0


From 7392a3f2e88c8fae0c019c76bae75fe2a1a258fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 31/70] fix: MeiReader: the flags of the notes in an fTrem do
 not depend on their dots or tuplets

---
 converter21/mei/meireader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 5f54278..d98fb6a 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -6097,7 +6097,8 @@ class MeiReader:
                 delattr(secondNoteOrChord, 'meireader_stem_mod')
 
         # numMarks should be total number of beams - beams due to note duration
-        numNoteBeams: int = self._QL_TO_NUMFLAGS.get(firstNoteOrChord.duration.quarterLength, 0)
+        durQLNoDots: float = m21.duration.typeToDuration.get(firstNoteOrChord.duration.type, 0.0)
+        numNoteBeams: int = self._QL_TO_NUMFLAGS.get(durQLNoDots, 0)
         numMarks -= numNoteBeams
 
         if numMarks == 9:
-- 
2.43.0


From ed930e65fe29d7fc78db77208d1997def8d6f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 32/70] fix: MeiLayer: nest an fTrem inside a beam or tuplet of
 the same length (MEI has no beam in fTrem)

---
 converter21/mei/meilayer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meilayer.py b/converter21/mei/meilayer.py
index 920c8f0..66eb006 100644
--- a/converter21/mei/meilayer.py
+++ b/converter21/mei/meilayer.py
@@ -558,7 +558,7 @@ class MeiLayer:
 
             output.append(spanner)  # type: ignore
 
-        output.sort(reverse=True, key=beamsBeforeTupletsBeforeTremolos)
+        output.sort(key=beamsBeforeTupletsBeforeTremolos)
         output.sort(reverse=True, key=spannerQL)
         return output
 
@@ -614,7 +614,7 @@ class MeiLayer:
 
             output.append(spanner)  # type: ignore
 
-        output.sort(key=beamsBeforeTupletsBeforeTremolos)
+        output.sort(reverse=True, key=beamsBeforeTupletsBeforeTremolos)
         output.sort(key=spannerQL)  # type: ignore
         return output
 
-- 
2.43.0


From 5fc663d717a1a141d0a7e457857977dbbaa9adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 33/70] fix: MeiReader.beamTogether: a secondary beam after a
 note with fewer beams starts there

---
 converter21/mei/meireader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index d98fb6a..81ccda8 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -2862,6 +2862,8 @@ class MeiReader:
                 if b.type == 'stop':
                     b.type = 'partial'
                     b.direction = 'left'
+                elif b.type == 'continue':
+                    b.type = 'start'
 
     def applyBreaksecs(self, someThings: list[Music21Object]):
         # First see if this is a beamed grace note group (i.e. all grace notes), or a beamed
-- 
2.43.0


From 9adbc5e89d4facba103edd5bb32f7937d2c54ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 34/70] fix: M21Utilities: add leftover Harte degrees in a
 fixed order, not in set order

---
 converter21/shared/m21utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 93b00ec..fa47369 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3605,7 +3605,8 @@ class M21Utilities:
 
         if cs is not None and leftoverDegrees:
             # add the extra degrees not implied by m21ChordKind (in order, lowest first)
-            leftoverDegreesList = sorted(list(leftoverDegrees), key=M21Utilities._degreeInt)
+            # (degreeList is already sorted; set order would differ from run to run)
+            leftoverDegreesList = sorted(leftoverDegrees, key=degreeList.index)
             for deg in leftoverDegreesList:
                 degInt: int = M21Utilities._degreeInt(deg)
                 if degInt == 1:
-- 
2.43.0


From 5df7084df236f0003fe62fc8e06386316f46b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 35/70] fix: M21Utilities.mdValueEqual: compare other
 attributes by name, not by set order

---
 converter21/shared/m21utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index fa47369..9111e1f 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2896,10 +2896,10 @@ class M21Utilities:
             c21OtherAttribs1 = getattr(v1, 'c21OtherAttribs')
         if hasattr(v2, 'c21OtherAttribs'):
             c21OtherAttribs2 = getattr(v2, 'c21OtherAttribs')
-        if len(c21OtherAttribs1) != len(c21OtherAttribs2):
+        if c21OtherAttribs1 != c21OtherAttribs2:
             return False
-        for v1Attr, v2Attr in zip(c21OtherAttribs1, c21OtherAttribs2):
-            if getattr(v1, v1Attr) != getattr(v2, v2Attr):
+        for attr in c21OtherAttribs1:
+            if getattr(v1, attr) != getattr(v2, attr):
                 return False
         return True
 
-- 
2.43.0


From 94a69a27de5bde6701c9b951ac953089bea1687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 36/70] fix: MeiMetadataItem: choose the version attribute in a
 fixed order, not in set order

---
 converter21/mei/meimetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/meimetadata.py b/converter21/mei/meimetadata.py
index 36a6283..5f0a46f 100644
--- a/converter21/mei/meimetadata.py
+++ b/converter21/mei/meimetadata.py
@@ -85,7 +85,7 @@ class MeiMetadataItem:
         # @version="version")
         self.meiOtherAttribs: dict[str, str] = {}
         otherAttribs: set[str] = getattr(self.value, 'c21OtherAttribs', set())
-        for attrib in otherAttribs:
+        for attrib in sorted(otherAttribs):
             version: str = ''
             if attrib in ('meiVersion', 'humdrumVersion'):
                 version = getattr(self.value, attrib, '')
-- 
2.43.0


From f0c8bad504a14ddfb1908f838fb230606363fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 37/70] fix: Convert.recipToDuration: remember durations per
 scale

---
 converter21/humdrum/convert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/convert.py b/converter21/humdrum/convert.py
index 483a2a3..15ed063 100644
--- a/converter21/humdrum/convert.py
+++ b/converter21/humdrum/convert.py
@@ -46,18 +46,19 @@ class Convert:
     // default value: scale = 4 (duration in terms of quarter notes)
     // default value: separator = " " (sub-token separator)
     '''
-    # key is recip, value is duration
-    _knownRecipDurationCache: dict[str, HumNum] = {}
+    # key is (recip, scale), value is duration
+    _knownRecipDurationCache: dict[tuple[str, HumNumIn], HumNum] = {}
 
     @staticmethod
     def recipToDuration(recip: str, scale: HumNumIn = opFrac(4)) -> HumNum:
-        if recip in Convert._knownRecipDurationCache:
-            return Convert._knownRecipDurationCache[recip]
+        cacheKey: tuple[str, HumNumIn] = (recip, scale)
+        if cacheKey in Convert._knownRecipDurationCache:
+            return Convert._knownRecipDurationCache[cacheKey]
 
         output: HumNum = opFrac(0)
         if 'q' in recip:
             # grace note, ignore printed rhythm
-            Convert._knownRecipDurationCache[recip] = output
+            Convert._knownRecipDurationCache[cacheKey] = output
             return output  # 0
 
         subToken = recip.split(' ')[0]  # we're only interested in the first subtoken
@@ -98,7 +99,7 @@ class Convert:
             dotFactor = opFrac(dotFactor)
 
         output = opFrac(output * dotFactor * scale)
-        Convert._knownRecipDurationCache[recip] = output
+        Convert._knownRecipDurationCache[cacheKey] = output
         return output
 
     '''
-- 
2.43.0


From 956168963a96d5c6ec00baae97f4f061660a8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:45 +0000
Subject: [PATCH 38/70] fix: write a composer's alias to MEI even when nothing
 else is known about the composer

---
 converter21/mei/meimetadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meimetadata.py b/converter21/mei/meimetadata.py
index 5f0a46f..4756608 100644
--- a/converter21/mei/meimetadata.py
+++ b/converter21/mei/meimetadata.py
@@ -1035,7 +1035,8 @@ class MeiMetadata:
             nameElement.text = composer.meiValue
 
             # MADS-style authority records (personal info about a composer)
-            if (composerBirthAndDeathDate is None
+            if (composerAlias is None
+                    and composerBirthAndDeathDate is None
                     and composerBirthPlace is None
                     and composerDeathPlace is None
                     and composerNationality is None):
-- 
2.43.0


From 358fa18750770719a126630a0c72633c9aefcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 39/70] fix: keep hour zero and minute zero when writing a date

---
 converter21/shared/m21utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 9111e1f..cb5665c 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2393,7 +2393,7 @@ class M21Utilities:
             attr = M21Utilities._dateAttrNames[i]
             value = getattr(date, attr)
             error = getattr(date, attr + 'Error')
-            if not value:
+            if not value and not (value == 0 and attr in ('hour', 'minute')):
                 msg.append('')
             else:
                 fmt = M21Utilities._dateAttrStrFormat[i]
-- 
2.43.0


From a70c49ac720c6d7095b5a4393e554f0af09c60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 40/70] fix: separate the date from the time of day correctly
 in isodates

---
 converter21/shared/m21utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index cb5665c..23eb3d0 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2137,9 +2137,9 @@ class M21Utilities:
             sub = sub + suffix
             msg.append(sub)
 
-        out = '-'.join(msg[:4])
-        if len(msg) >= 4:
-            out += 'T' + ':'.join(msg[4:])
+        out = '-'.join(msg[:3])
+        if len(msg) > 3:
+            out += 'T' + ':'.join(msg[3:])
         return out
 
     # Conversions from str to m21.metadata.DatePrimitive types, and back.
-- 
2.43.0


From d277e68d4f2ffd0030646b48733f983a34dfbff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 41/70] fix: keep an impossible date as text instead of
 refusing the whole file

---
 converter21/shared/m21utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 23eb3d0..b2cc0ab 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -2332,6 +2332,12 @@ class M21Utilities:
                 if attrError is not None:
                     setattr(date, attr + 'Error', attrError)
 
+        try:
+            # check that there is such a date (there is no month 13, for example)
+            m21.metadata.DateSingle(date)
+        except ValueError:
+            return None
+
         return date
 
     @staticmethod
-- 
2.43.0


From 823cb145b7ace17c839366c69198dc65c4c899fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 42/70] fix: read the time of day of an isodate that has no
 seconds

---
 converter21/shared/m21utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index b2cc0ab..b3384a0 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1937,9 +1937,10 @@ class M21Utilities:
 
         if time:
             timePieces: list[str] = time.split(':')
-            if len(timePieces) >= 3:
-                hour = timePieces[0]
+            hour = timePieces[0]
+            if len(timePieces) > 1:
                 minute = timePieces[1]
+            if len(timePieces) > 2:
                 second = timePieces[2]
 
         try:
-- 
2.43.0


From 720141c2e854d14a95be806ed86d71504386a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 43/70] fix: write and read isodates before the common era

---
 converter21/shared/m21utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index b3384a0..fb446d9 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -1928,8 +1928,10 @@ class M21Utilities:
         minute: str | None = None
         second: str | None = None
         if date:
-            datePieces: list[str] = date.split('-')
-            year = datePieces[0]
+            # a leading '-' is the sign of the year, not a separator
+            sign: str = '-' if date[0] == '-' else ''
+            datePieces: list[str] = date[len(sign):].split('-')
+            year = sign + datePieces[0]
             if len(datePieces) > 1:
                 month = datePieces[1]
             if len(datePieces) > 2:
@@ -2132,7 +2134,7 @@ class M21Utilities:
 
             sub: str
             if attr == 'year':
-                sub = '%04d' % value
+                sub = '%04d' % value if value >= 0 else '-%04d' % -value
             else:
                 sub = '%02d' % value
             sub = sub + suffix
-- 
2.43.0


From 7ae63e870d343eba905802d97b3ad3c007d7307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 44/70] fix: a chord symbol text that starts with an accidental
 no longer hangs the MEI import

---
 converter21/shared/m21utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index fb446d9..37320e4 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3051,12 +3051,9 @@ class M21Utilities:
         while i < len(text):
             ch = text[i]
             if i == 0:
-                # grab root plus any accidental(s)
+                # grab root (any accidentals that follow it are converted below)
                 output += ch
                 i += 1
-                while ch in M21Utilities.ACCIDENTAL_CHAR_TO_ASCII:
-                    output += M21Utilities.ACCIDENTAL_CHAR_TO_ASCII[ch]
-                    i += 1
 
                 # from now until we see a '/' (just before bass note, if present),
                 # we will change any 'b' ASCII accidental to '-'.
-- 
2.43.0


From f675e012af0d06d70870eb7766e8f370901026f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 45/70] fix: a missing voice no longer hangs the simple spine
 expansion of the Humdrum export

---
 converter21/humdrum/humgrid.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/humgrid.py b/converter21/humdrum/humgrid.py
index 7188add..964b1ba 100755
--- a/converter21/humdrum/humgrid.py
+++ b/converter21/humdrum/humgrid.py
@@ -1668,12 +1668,10 @@ class HumGrid:
                 newV = 0
                 while v in range(0, len(staff.voices)):
                     voice = staff.voices[v]
-                    if voice is None:
-                        continue
-                    token: HumdrumToken | None = voice.token
-                    if token is None:
-                        continue
-                    if token.text == '*^':
+                    token: HumdrumToken | None = None
+                    if voice is not None:
+                        token = voice.token
+                    if token is not None and token.text == '*^':
                         newVoice = self.createVoice('*', 'L', 0, p, s)
                         newStaff.voices.insert(newV + 1, newVoice)
                         newV += 1
-- 
2.43.0


From c7d5a42f8381b0054290160f0fcdf66af95dc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 46/70] fix: repairing a line with too many fields no longer
 skips or repeats lines

---
 converter21/humdrum/humdrumfilebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 48c3392..c147aaf 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1090,7 +1090,7 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
 
                     # not successful, fall back to just deleting the last token(s)
                     tokenRemoved: bool = False
-                    for i in range(len(dataType), line.tokenCount):
+                    for _ in range(len(dataType), line.tokenCount):
                         # pylint: disable=protected-access
                         line._tokens = line._tokens[:-1]
                         # pylint: enable=protected-access
-- 
2.43.0


From ff13265de441b57a5b07bbcf705d07c303f78d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 47/70] fix: tempo text that ends with a note symbol no longer
 fails the Humdrum export

---
 converter21/humdrum/m21convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 7788cd5..e43525f 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -2000,7 +2000,7 @@ class M21Convert:
                     + SharedConstants.SMUFL_METRONOME_MARK_NOTE_CHARS_TO_HUMDRUM_NOTE_NAME[char]
                 )
                 j = i + 1
-                while text[j] in (
+                while j < len(text) and text[j] in (
                     SharedConstants.SMUFL_NAME_TO_UNICODE_CHAR['metAugmentationDot'],
                     chr(0x2009),  # thin space, inserted around notes sometimes
                     chr(0x200A),  # hair (very thin) space, inserted sometimes as well
-- 
2.43.0


From ea7a3121c7bc499afe17e6df0a5d11c197002d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 48/70] fix: verse labels that are not plain text (e.g. '(' or
 'd') are read as they are written

---
 converter21/humdrum/humdrumfile.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index d4ddaec..27bacf1 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8139,14 +8139,7 @@ class HumdrumFile(HumdrumFileContent):
         if not token.text.startswith('*v:'):
             return ''
 
-        contents: str = token.text[3:]
-        output: str = ''
-        if re.search(contents, r'^\d+$'):
-            output = contents + '.'
-        else:
-            output = contents
-
-        return output
+        return token.text[3:]
 
     '''
     //////////////////////////////
-- 
2.43.0


From cadb6e2d85ae32f5ef184d9b95795f0462845f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 49/70] fix: a marked-text signifier is removed from lyrics as
 text, not as a regular expression

---
 converter21/humdrum/humdrumfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 27bacf1..c1b3071 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8228,7 +8228,7 @@ class HumdrumFile(HumdrumFileContent):
                 verse.style.color = textColor
 
                 # remove mark character from text (so that it does not display)
-                output = re.sub(textMark, '', output)
+                output = output.replace(textMark, '')
                 return output
 
         return output
-- 
2.43.0


From 14c2425ae648df9129e066e5bb1a3b2b46ccc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 50/70] fix: lyrics that start with '!' or '*' lose the
 escaping backslash when read

---
 converter21/humdrum/humdrumfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index c1b3071..76e73a2 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8080,6 +8080,10 @@ class HumdrumFile(HumdrumFileContent):
                     obj.lyrics.append(verse)
                     continue
 
+                # the writer escapes text that would otherwise be taken as Humdrum syntax
+                if content.startswith(('\\!', '\\*')):
+                    content = content[1:]
+
                 content = self._colorVerse(verse, content)
 
                 # verse can have multiple syllables if elisions present
-- 
2.43.0


From 510a6d262fbd62624f9f7cbf8be18f2395f159a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 51/70] fix: rehearsal mark text is unescaped when read, like
 all other layout text

---
 converter21/humdrum/humdrumfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 76e73a2..1b82741 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -10611,6 +10611,9 @@ class HumdrumFile(HumdrumFileContent):
                         staffNumStrs.append(placeStr[1:])
                     continue
 
+            tvalue = html.unescape(tvalue)
+            tvalue = tvalue.replace(r'\n', '\n')
+
             # We allow rehearsal marks with no text (so does music21's
             # MusicXML importer).
 
-- 
2.43.0


From a6b31031c298e2bf526a139ea1fd9dec3e4c190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:17 +0000
Subject: [PATCH 52/70] fix: a lyric that is nothing but a marked-text
 signifier no longer stops the file being read

---
 converter21/humdrum/humdrumfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 1b82741..64c2e0c 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -8085,6 +8085,8 @@ class HumdrumFile(HumdrumFileContent):
                     content = content[1:]
 
                 content = self._colorVerse(verse, content)
+                if not content:
+                    continue
 
                 # verse can have multiple syllables if elisions present
 
-- 
2.43.0


From 0393be27c27067d51e28818f52270f04897e7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:17 +0000
Subject: [PATCH 53/70] fix: a global record is written as one token, however
 many voices are open around it

---
 converter21/humdrum/gridslice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/humdrum/gridslice.py b/converter21/humdrum/gridslice.py
index b38010c..fbaa4ed 100644
--- a/converter21/humdrum/gridslice.py
+++ b/converter21/humdrum/gridslice.py
@@ -417,6 +417,9 @@ class GridSlice:
                             line.appendToken(voice.token)
                         else:
                             line.appendToken(HumdrumToken(emptyStr))
+                        if not self.hasSpines:
+                            # non-spined lines have exactly one token
+                            break
 
                 if not self.hasSpines:
                     # Don't add sides to non-spined lines
-- 
2.43.0


From 94a7dc9d8580cccaad3e0bf9e60c69e6854dc9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:17 +0000
Subject: [PATCH 54/70] fix: a tempo without text does not write an empty OMD
 record

---
 converter21/humdrum/humdrumwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index 65ee4a0..ba6b9be 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -3214,7 +3214,7 @@ class HumdrumWriter:
                 '!LO:TX:t=' + tempoText,
                 beforeAnyNonTextLayouts=True
             )
-        else:
+        elif tempoText:
             outgm.addGlobalReference('!!!OMD: ' + tempoText, timestamp)
 
     '''
-- 
2.43.0


From 30de37a9113ebe307d290950bf868b82d61645ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 55/70] fix: named tempos (*MM[Adagio]) are read

---
 converter21/humdrum/humdrumtoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumtoken.py b/converter21/humdrum/humdrumtoken.py
index 2c2f4ef..56be27d 100644
--- a/converter21/humdrum/humdrumtoken.py
+++ b/converter21/humdrum/humdrumtoken.py
@@ -1531,7 +1531,7 @@ class HumdrumToken(HumHash):
     def tempoName(self) -> str:
         if not self.isTempo:
             return ''
-        m = re.match(r'^\*MM[(.+)]', self.text)
+        m = re.match(r'^\*MM\[(.+)\]', self.text)
         if m:
             return m.group(1)
         return ''
-- 
2.43.0


From 90f4f00d09282d7ff1c619432cef72e5827c9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 56/70] fix: a linked slur end is found wherever it stands in
 its token

---
 converter21/humdrum/humdrumfilecontent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilecontent.py b/converter21/humdrum/humdrumfilecontent.py
index ec43317..75ff644 100644
--- a/converter21/humdrum/humdrumfilecontent.py
+++ b/converter21/humdrum/humdrumfilecontent.py
@@ -717,7 +717,7 @@ class HumdrumFileContent(HumdrumFileStructure):
             if counter != index:
                 continue
 
-            startIndex: int = 1 - len(pattern) + 1
+            startIndex: int = i - len(pattern) + 1
             if token.text[startIndex:].startswith(pattern):
                 return True
             return False
-- 
2.43.0


From 1a32313102a75ca587580e8fa0ac2e73be065ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 57/70] fix: an ordinary slur start before a linked one in the
 same token is not taken as linked

---
 converter21/humdrum/humdrumfilecontent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilecontent.py b/converter21/humdrum/humdrumfilecontent.py
index 75ff644..014f3fa 100644
--- a/converter21/humdrum/humdrumfilecontent.py
+++ b/converter21/humdrum/humdrumfilecontent.py
@@ -753,7 +753,7 @@ class HumdrumFileContent(HumdrumFileStructure):
                 continue
 
             startIndex = i - len(pattern) + 1
-            if pattern in token.text[startIndex:]:
+            if token.text[startIndex:].startswith(pattern):
                 return True
             return False
         return False
-- 
2.43.0


From 030264b2178bc087bdce0e1fe7939318e31ed2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 58/70] fix: a *color interpretation colors its own spine only

---
 converter21/humdrum/humdrumfilecontent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilecontent.py b/converter21/humdrum/humdrumfilecontent.py
index 014f3fa..e5ae67d 100644
--- a/converter21/humdrum/humdrumfilecontent.py
+++ b/converter21/humdrum/humdrumfilecontent.py
@@ -1780,7 +1780,7 @@ class HumdrumFileContent(HumdrumFileStructure):
 
     '''
     def initializeSpineColor(self) -> None:
-        self._spineColor = [[''] * MAXCOLORSUBTRACK] * (self.maxTrack + 1)
+        self._spineColor = [[''] * MAXCOLORSUBTRACK for _ in range(self.maxTrack + 1)]
         for line in self.lines():
             if line.isData:
                 break
-- 
2.43.0


From ebb99c5b13854beafaa18fdee12c7cb46c1a967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 59/70] fix: above/below signifiers that are regular expression
 operators are matched literally

---
 converter21/humdrum/humdrumfile.py        | 8 ++++----
 converter21/humdrum/humdrumfilecontent.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 64c2e0c..a040350 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3390,11 +3390,11 @@ class HumdrumFile(HumdrumFileContent):
             pattern: str
             direction: int = 0
             if self._signifiers.above:
-                pattern = '[LJKk]+' + self._signifiers.above
+                pattern = '[LJKk]+' + re.escape(self._signifiers.above)
                 if re.search(pattern, token.text):
                     direction = 1
             if self._signifiers.below:
-                pattern = '[LJKk]+' + self._signifiers.below
+                pattern = '[LJKk]+' + re.escape(self._signifiers.below)
                 if re.search(pattern, token.text):
                     direction = -1
             if direction != 0:
@@ -6126,10 +6126,10 @@ class HumdrumFile(HumdrumFileContent):
             direction = -1
         else:
             if self._signifiers.above:
-                if re.search('[LJkK]+' + self._signifiers.above, start.text):
+                if re.search('[LJkK]+' + re.escape(self._signifiers.above), start.text):
                     direction = +1
             elif self._signifiers.below:
-                if re.search('[LJkK]+' + self._signifiers.below, start.text):
+                if re.search('[LJkK]+' + re.escape(self._signifiers.below), start.text):
                     direction = -1
 
         if direction == 0:
diff --git a/converter21/humdrum/humdrumfilecontent.py b/converter21/humdrum/humdrumfilecontent.py
index e5ae67d..5d1806e 100644
--- a/converter21/humdrum/humdrumfilecontent.py
+++ b/converter21/humdrum/humdrumfilecontent.py
@@ -151,11 +151,11 @@ class HumdrumFileContent(HumdrumFileStructure):
         hasBelow: bool = False
         notePattern: str = r'[A-Ga-g]+[#n-]*'
         if above:
-            if re.search(notePattern + above, token.text):
+            if re.search(notePattern + re.escape(above), token.text):
                 # note/chord has staff-above signifier
                 hasAbove = True
         if below:
-            if re.search(notePattern + below, token.text):
+            if re.search(notePattern + re.escape(below), token.text):
                 # note/chord has staff-below signifier
                 hasBelow = True
 
-- 
2.43.0


From e01d4b8395a0a5e0862a41c854ce78d4a916d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 60/70] fix: the stem direction of a tremolo beam is read from
 the below signifier also when an above signifier is defined

---
 converter21/humdrum/humdrumfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index a040350..91f6bfd 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -6128,7 +6128,7 @@ class HumdrumFile(HumdrumFileContent):
             if self._signifiers.above:
                 if re.search('[LJkK]+' + re.escape(self._signifiers.above), start.text):
                     direction = +1
-            elif self._signifiers.below:
+            if self._signifiers.below:
                 if re.search('[LJkK]+' + re.escape(self._signifiers.below), start.text):
                     direction = -1
 
-- 
2.43.0


From 8a1d20f570f5f6192c13e7e162b59c0f3e88f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 61/70] fix: a null token at the start of a spine does not
 stand for the last token of the spine before it

---
 converter21/humdrum/humdrumfilestructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfilestructure.py b/converter21/humdrum/humdrumfilestructure.py
index dfbd89c..018c6b9 100644
--- a/converter21/humdrum/humdrumfilestructure.py
+++ b/converter21/humdrum/humdrumfilestructure.py
@@ -800,9 +800,9 @@ class HumdrumFileStructure(HumdrumFileBase):
         if not self.areStrandsAnalyzed:
             self.analyzeStrands()
 
-        data: HumdrumToken | None = None
         strandPair: TokenPair
         for strandPair in self._strand1d:
+            data: HumdrumToken | None = None
             token: HumdrumToken | None = strandPair.first
             strandEnd: HumdrumToken | None = strandPair.last
             if t.TYPE_CHECKING:
-- 
2.43.0


From 082655b04e80a4a396ec6a0f1d342d0c9ac9283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:38 +0000
Subject: [PATCH 62/70] fix: a backward hook in the middle of a beam is read as
 a backward hook

---
 converter21/humdrum/humdrumfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 91f6bfd..5772b80 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3669,7 +3669,12 @@ class HumdrumFile(HumdrumFileContent):
             for beamNum in range(numBeams + 1, prevNumBeams + 1):  # beam numbers are 1-based
                 prevObjBeam = prevObj.beams.getByNumber(beamNum)
                 if prevObjBeam.type == 'start':
-                    prevObj.beams.setByNumber(beamNum, 'partial', direction='right')
+                    # 'k' is a backward hook (unless nothing precedes it), 'K' is a forward hook
+                    direction: str = 'right'
+                    if ('k' in prevToken.text and 'K' not in prevToken.text
+                            and prevObj.beams.getByNumber(1).type != 'start'):
+                        direction = 'left'
+                    prevObj.beams.setByNumber(beamNum, 'partial', direction=direction)
                 else:
                     prevObj.beams.setByNumber(beamNum, 'stop')
 
-- 
2.43.0


From f5775b2e283f129b2eb7724c50693e91ec070c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:34 +0000
Subject: [PATCH 63/70] fix: a key or time signature change inside the first
 measure is not lost

---
 converter21/humdrum/humdrumfile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 5772b80..b59da7c 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -1195,11 +1195,10 @@ class HumdrumFile(HumdrumFileContent):
         measureIndex: int = len(self._allMeasuresPerStaff) - 1
         self._measureIndexFromKey[measureKey] = measureIndex
 
-        if self._lines[startLineIdx].durationFromStart > 0:
-            # not first measure, check for keysig, timesig changes
-            # Q: what about clef changes?  Might happen in _fillContentsOfLayer,
-            # Q: along with notes and rests?
-            self._addKeyTimeChangesToSystemMeasures(measureKey)
+        # check for keysig, timesig changes
+        # Q: what about clef changes?  Might happen in _fillContentsOfLayer,
+        # Q: along with notes and rests?
+        self._addKeyTimeChangesToSystemMeasures(measureKey)
 
         # set up self._m21BreakAtStartOfNextMeasure for the next measure
         self._checkForFormalBreak(endLineIdx)
@@ -1378,6 +1377,9 @@ class HumdrumFile(HumdrumFileContent):
             line = self._lines[i]
             if not line.isInterpretation:
                 continue
+            if line.durationFromStart <= 0:
+                # initial signatures (not changes): already in self._staffStates
+                continue
 
             for token in line.tokens():
                 staffIndex: int = self._staffStartsIndexByTrack[token.track]
-- 
2.43.0


From 19c7a15655f77be8dd55036c43c2ab10050ae4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:25 +0000
Subject: [PATCH 64/70] fix: a clef change in several layers of a staff is
 inserted in the measure once

---
 converter21/humdrum/humdrumfile.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index b59da7c..54d027e 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -2801,7 +2801,14 @@ class HumdrumFile(HumdrumFileContent):
                         token.ownerLine.createLineFromTokens()
                         self.numSyntaxErrorsFixed += len(subtokens) - 1
 
-                # we do clef changes up in the measure, not in the voices
+                # we do clef changes up in the measure, not in the voices, so we
+                # only need one of the (same) clefs in the layers of the staff
+                prevTok: HumdrumToken | None = token.previousFieldToken
+                while prevTok is not None and prevTok.track == token.track:
+                    if prevTok.text == token.text:
+                        return False
+                    prevTok = prevTok.previousFieldToken
+
                 clefOffsetInMeasure: HumNum = token.durationFromBarline
                 m21Clef: m21.clef.Clef = M21Convert.m21Clef(token)
                 measure: m21.stream.Measure = self._allMeasuresPerStaff[measureIndex][staffIndex]
-- 
2.43.0


From bc45fdf85342ceaffe196327d35a7e3b76442236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:47 +0000
Subject: [PATCH 65/70] fix: a secondary beam break between notes of different
 numbers of beams is not lost

---
 converter21/humdrum/humdrumfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 54d027e..aef113e 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3714,8 +3714,9 @@ class HumdrumFile(HumdrumFileContent):
         # and token ('continue' becomes 'start')
         breakBeamCount = prevToken.getValueInt('auto', 'breakBeamCount')
         if breakBeamCount > 0:
-            if prevNumBeams == numBeams and numBeams > breakBeamCount:
-                for i in range(breakBeamCount + 1, numBeams + 1):  # beam numbers are 1-based
+            commonNumBeams: int = min(prevNumBeams, numBeams)
+            if commonNumBeams > breakBeamCount:
+                for i in range(breakBeamCount + 1, commonNumBeams + 1):  # beam nums are 1-based
                     prevObj.beams.setByNumber(i, 'stop')
                     obj.beams.setByNumber(i, 'start')
 
-- 
2.43.0


From 60eb7bc68224c2f469ef9933a65dd50392071e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:30 +0000
Subject: [PATCH 66/70] fix: a slur from a staff to one above it starts at its
 start

---
 converter21/mei/meireader.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 81ccda8..9244d41 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -9442,7 +9442,7 @@ class MeiReader:
 
         partIdx: int
         staffNStr: str
-        # fill in any Ottava spanners, and reorder any PedalMark spanner contents
+        # fill in any Ottava spanners, and reorder any Slur or PedalMark spanner contents
         for sp in self.spannerBundle:
             if isinstance(sp, m21.spanner.Ottava):
                 staffNStr = ''
@@ -9467,6 +9467,20 @@ class MeiReader:
                     sp.fill(thePartList[partIdx])
                 continue
 
+            if isinstance(sp, m21.spanner.Slur):
+                # the end of a slur to a staff above was parsed before the start
+                slurred: list[m21.base.Music21Object] = sp.getSpannedElements()
+                try:
+                    ordered = sorted(slurred, key=lambda el: el.getOffsetInHierarchy(theScore))
+                except m21.sites.SitesException:
+                    # a note in a chord
+                    continue
+                if ordered and ordered[0] is not slurred[0]:
+                    for el in slurred:
+                        sp.spannerStorage.remove(el)
+                    sp.addSpannedElements(ordered)
+                continue
+
             if M21Utilities.m21PedalMarksSupported() and isinstance(sp, m21.expressions.PedalMark):
                 elList: list[m21.base.Music21Object] = sp.getSpannedElements()
                 for el in elList:
-- 
2.43.0


From 1c65a37b47efed6a90481fef3f6bb5bb15b60671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 67/70] fix: MEI reader: each tupletSpan has its own bracket
 and number look

---
 converter21/mei/meireader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter21/mei/meireader.py b/converter21/mei/meireader.py
index 9244d41..c420a2e 100755
--- a/converter21/mei/meireader.py
+++ b/converter21/mei/meireader.py
@@ -3145,6 +3145,11 @@ class MeiReader:
                 inATuplet = True
                 tupletNum = eachNote.m21TupletNum  # type: ignore
                 tupletNumbase = eachNote.m21TupletNumbase  # type: ignore
+                tupletBracketVisible = None
+                tupletBracketPlace = None
+                tupletNumVisible = None
+                tupletNumPlace = None
+                tupletNumFormat = None
                 if hasattr(eachNote, 'm21TupletBracketVisible'):
                     tupletBracketVisible = eachNote.m21TupletBracketVisible  # type: ignore
                     del eachNote.m21TupletBracketVisible  # type: ignore
-- 
2.43.0


From c442dacdb90f46314c21c2aa9bfdb984ac6d5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 68/70] fix: MEI export of a fermata without a placement

---
 converter21/mei/m21objectconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index 431a488..11801cb 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -1586,7 +1586,7 @@ class M21ObjectConvert:
 
         if fermata.type == 'inverted':
             attr['form'] = 'inv'
-        elif fermata.placement == 'below':
+        elif getattr(fermata, 'placement', None) == 'below':
             # be explicit, readers assume a fermata below is inverted
             attr['form'] = 'norm'
 
-- 
2.43.0


From 4a7a07e9f84454c549a8abc51f5be12dfc97a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 69/70] fix: Humdrum export of a gap in a voice that needs
 several invisible rests

---
 converter21/humdrum/measuredata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter21/humdrum/measuredata.py b/converter21/humdrum/measuredata.py
index e5ae3d7..59f70f2 100644
--- a/converter21/humdrum/measuredata.py
+++ b/converter21/humdrum/measuredata.py
@@ -323,6 +323,7 @@ class MeasureData:
                     )
                     if event is not None:
                         self.events.append(event)
+                    currentEmittedTime = opFrac(currentEmittedTime + duration)
 
                 currentEmittedTime = elStartTime
 
-- 
2.43.0


From ab321d7ca746a969d05489d88233ca6856d28cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 70/70] fix: Humdrum export of a key designation or meter
 symbol that not every staff has

---
 converter21/humdrum/humdrumwriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/humdrumwriter.py b/converter21/humdrum/humdrumwriter.py
index ba6b9be..b9d8c32 100755
--- a/converter21/humdrum/humdrumwriter.py
+++ b/converter21/humdrum/humdrumwriter.py
@@ -1541,7 +1541,7 @@ class HumdrumWriter:
                 elif isinstance(m21Obj, (m21.key.Key, m21.key.KeySignature)):
                     keySigs[pindex].append((sindex, m21Obj))
                     hasKeySig = True
-                    hasKeyDesignation = 'Key' in m21Obj.classes
+                    hasKeyDesignation = hasKeyDesignation or 'Key' in m21Obj.classes
                     foundNonGrace = True
                 elif isinstance(m21Obj, m21.instrument.Instrument):
                     if M21Utilities.isTransposingInstrument(m21Obj):
@@ -1556,7 +1556,7 @@ class HumdrumWriter:
                 elif isinstance(m21Obj, m21.meter.TimeSignature):
                     timeSigs[pindex].append((sindex, m21Obj))
                     hasTimeSig = True
-                    hasMeterSig = M21Utilities.hasMeterSymbol(m21Obj)
+                    hasMeterSig = hasMeterSig or M21Utilities.hasMeterSymbol(m21Obj)
                     foundNonGrace = True
                 elif isinstance(m21Obj, m21.expressions.TextExpression):
                     # put in self._currentTexts, so it can be emitted
-- 
2.43.0

