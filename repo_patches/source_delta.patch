From f0ac4361c9c792841c58ce28e9380985ad39b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/66] fix: never read convertible Brahmic text as partly
 copied in FROM_BRAHMIC

---
 nisaba/scripts/brahmic/iso.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/brahmic/iso.py b/nisaba/scripts/brahmic/iso.py
index d3f2474..b9a7c8a 100644
--- a/nisaba/scripts/brahmic/iso.py
+++ b/nisaba/scripts/brahmic/iso.py
@@ -186,12 +186,13 @@ def generator_main(exporter_map: multi_grm.ExporterMapping):
         script = script.upper()
         exporter[f'FROM_{script}'] = from_script
         exporter[f'TO_{script}'] = to_script
-      # TODO: The utf8 version of `FROM_BRAHMIC` transducer is
-      # failing to rewrite any native script inputs.
-      exporter['FROM_BRAHMIC'] = rw.Rewrite(
-          p.union(*from_script_fsts).optimize(),
-          sigma=p.union(*sigma_fsts).optimize()
-      )
+      # Whatever is not converted is copied. Copying is costlier than any
+      # conversion: otherwise a letter with a nukta, say, could as well be read
+      # as the bare letter, converted, and a stray nukta, copied.
+      copied = p.union(*sigma_fsts) + p.accep('', weight=10)
+      exporter['FROM_BRAHMIC'] = p.union(
+          copied, *from_script_fsts
+      ).star.optimize()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 681f85aa245d9e04004e98c38f346c00230d71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/66] fix: escape brackets and backslashes in
 FstWrapper.AcceptText

---
 nisaba/scripts/utils/far.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..5515691 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,8 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      # Unmanaged strings need escaping here as well.
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From cfda814efac9a66deb9331385efe697b4d3f3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 03/66] fix: write nukta letters decomposed in Devanagari
 visual rewrites

---
 .../data/Deva/visual_rewrite.textproto        | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/nisaba/scripts/brahmic/data/Deva/visual_rewrite.textproto b/nisaba/scripts/brahmic/data/Deva/visual_rewrite.textproto
index 076e64a..627cc43 100644
--- a/nisaba/scripts/brahmic/data/Deva/visual_rewrite.textproto
+++ b/nisaba/scripts/brahmic/data/Deva/visual_rewrite.textproto
@@ -316,67 +316,67 @@ item {
 }
 item {
   uname: ["KHHA", "VIRAMA", "SIGN AA"] raw: "ख़्ा"
-  to_uname: "KHHA" to_raw: "ख़"
+  to_uname: ["KHA", "NUKTA"] to_raw: "ख़"
 }
 item {
   uname: ["KHHA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ख़्‍ा"
-  to_uname: "KHHA" to_raw: "ख़"
+  to_uname: ["KHA", "NUKTA"] to_raw: "ख़"
 }
 item {
   uname: ["KHA", "NUKTA", "VIRAMA", "SIGN AA"] raw: "ख़्ा"
-  to_uname: "KHHA" to_raw: "ख़"
+  to_uname: ["KHA", "NUKTA"] to_raw: "ख़"
 }
 item {
   uname: ["KHA", "NUKTA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ख़्‍ा"
-  to_uname: "KHHA" to_raw: "ख़"
+  to_uname: ["KHA", "NUKTA"] to_raw: "ख़"
 }
 item {
   uname: ["GHHA", "VIRAMA", "SIGN AA"] raw: "ग़्ा"
-  to_uname: "GHHA" to_raw: "ग़"
+  to_uname: ["GA", "NUKTA"] to_raw: "ग़"
 }
 item {
   uname: ["GHHA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ग़्‍ा"
-  to_uname: "GHHA" to_raw: "ग़"
+  to_uname: ["GA", "NUKTA"] to_raw: "ग़"
 }
 item {
   uname: ["GA", "NUKTA", "VIRAMA", "SIGN AA"] raw: "ग़्ा"
-  to_uname: "GHHA" to_raw: "ग़"
+  to_uname: ["GA", "NUKTA"] to_raw: "ग़"
 }
 item {
   uname: ["GA", "NUKTA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ग़्‍ा"
-  to_uname: "GHHA" to_raw: "ग़"
+  to_uname: ["GA", "NUKTA"] to_raw: "ग़"
 }
 item {
   uname: ["ZA", "VIRAMA", "SIGN AA"] raw: "ज़्ा"
-  to_uname: "ZA" to_raw: "ज़"
+  to_uname: ["JA", "NUKTA"] to_raw: "ज़"
 }
 item {
   uname: ["ZA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ज़्‍ा"
-  to_uname: "ZA" to_raw: "ज़"
+  to_uname: ["JA", "NUKTA"] to_raw: "ज़"
 }
 item {
   uname: ["JA", "NUKTA", "VIRAMA", "SIGN AA"] raw: "ज़्ा"
-  to_uname: "ZA" to_raw: "ज़"
+  to_uname: ["JA", "NUKTA"] to_raw: "ज़"
 }
 item {
   uname: ["JA", "NUKTA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "ज़्‍ा"
-  to_uname: "ZA" to_raw: "ज़"
+  to_uname: ["JA", "NUKTA"] to_raw: "ज़"
 }
 item {
   uname: ["YYA", "VIRAMA", "SIGN AA"] raw: "य़्ा"
-  to_uname: "YYA" to_raw: "य़"
+  to_uname: ["YA", "NUKTA"] to_raw: "य़"
 }
 item {
   uname: ["YYA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "य़्‍ा"
-  to_uname: "YYA" to_raw: "य़"
+  to_uname: ["YA", "NUKTA"] to_raw: "य़"
 }
 item {
   uname: ["YA", "NUKTA", "VIRAMA", "SIGN AA"] raw: "य़्ा"
-  to_uname: "YYA" to_raw: "य़"
+  to_uname: ["YA", "NUKTA"] to_raw: "य़"
 }
 item {
   uname: ["YA", "NUKTA", "VIRAMA", "ZERO WIDTH JOINER", "SIGN AA"] raw: "य़्‍ा"
-  to_uname: "YYA" to_raw: "य़"
+  to_uname: ["YA", "NUKTA"] to_raw: "य़"
 }
 item {
   uname: ["ZHA", "VIRAMA", "SIGN AA"] raw: "ॹ्ा"
-- 
2.43.0


From dfc71b48001282f36d0ce7ec56230563a24c34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 04/66] fix: keep the diphthongs ai and au when /a/ is
 pronounced as schwa

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..68af582 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -40,12 +40,13 @@ ph = psa.PHONEME_INVENTORY
 # Vowels
 
 # TODO: Convert this constant to a function where duration and diphthong
-# context are passed as arguments, and remove the recovery rule.
+# context are passed as arguments, and remove the recovery rules.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /ə+i/ -> /a+i/.
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite(ph.EC + psa.mod.CMB.ph, ph.A + psa.mod.CMB.ph)
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From 02888c4a6b49dfc225a5ef4528c35301fbe709c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 05/66] fix: double affricates as a whole after addak

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 68af582..0192fdf 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -239,8 +239,12 @@ H_ASP = rw.reassign(
     gr.H, ph.H, ph.ASP, (ph.M | ph.NI | ph.VU | ph.L | ph.R)
 )
 
-ADDAK = rw.rewrite_ls(
-    [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+# An affricate is doubled as a whole, not just the stop it starts with.
+ADDAK = (
+    rw.rewrite_ls(
+        [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+    )
+    @ rw.rewrite(ph.T + ph.T_SH, ph.T_SH + ph.T_SH, ph.SIL)
 )
 
 AUM_AON = rw.reassign(gr.U_I, ph.U, ph.O, following=(gr.ANS + al.SKIP + al.EOW))
-- 
2.43.0


From 44f09dd1060071d8a865940758c8bd460497b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 06/66] fix: compose yeh and ae with hamza above in Arabic
 script NFC

---
 nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
index 74c913d..a1adb1d 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
@@ -49,6 +49,16 @@ item {
   to_uname: "WAW WITH HAMZA ABOVE" to_raw: "ؤ"
 }
 
+item {
+  uname: ["YEH", "HAMZA ABOVE"] raw: "ئ"
+  to_uname: "YEH WITH HAMZA ABOVE" to_raw: "ئ"
+}
+
+item {
+  uname: ["AE", "HAMZA ABOVE"] raw: "ۀ"
+  to_uname: "HEH WITH YEH ABOVE" to_raw: "ۀ"
+}
+
 item {
   uname: ["HEH GOAL", "HAMZA ABOVE"] raw: "ۂ"
   to_uname: "HEH GOAL WITH HAMZA ABOVE" to_raw: "ۂ"
-- 
2.43.0


From 52ca9dbbc1a5b4e8d2f2c3bdf68f412aaf72eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 07/66] fix: compose letter variants with marks in one pass in
 abjad visual norms

---
 .../abjad_alphabet/data/Arab/azb/visual_norm.textproto | 10 ++++++++++
 .../abjad_alphabet/data/Arab/ks/visual_norm.textproto  |  5 +++++
 .../abjad_alphabet/data/Arab/ms/visual_norm.textproto  |  5 +++++
 .../abjad_alphabet/data/Arab/ug/visual_norm.textproto  |  5 +++++
 .../abjad_alphabet/data/Arab/uz/visual_norm.textproto  |  5 +++++
 5 files changed, 30 insertions(+)

diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/azb/visual_norm.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/azb/visual_norm.textproto
index 9ed13b0..32daaee 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/azb/visual_norm.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/azb/visual_norm.textproto
@@ -22,11 +22,21 @@ item {
   to_uname: "HEH WITH YEH ABOVE" to_raw: "ۀ"
 }
 
+item {
+  uname: ["HEH DOACHASHMEE", "HAMZA ABOVE"] raw: "ھٔ"
+  to_uname: "HEH WITH YEH ABOVE" to_raw: "ۀ"
+}
+
 item {
   uname: ["FARSI YEH", "VOWEL SIGN INVERTED SMALL V ABOVE"]  raw: "یٛ"
   to_uname: "FARSI YEH WITH INVERTED V" to_raw: "ؽ"
 }
 
+item {
+  uname: ["YEH", "VOWEL SIGN INVERTED SMALL V ABOVE"] raw: "يٛ"
+  to_uname: "FARSI YEH WITH INVERTED V" to_raw: "ؽ"
+}
+
 # `ROUNDED HIGH STOP WITH FILLED CENTRE` series:
 # ------------------------------------------------------------------------------
 
diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/ks/visual_norm.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/ks/visual_norm.textproto
index a71da67..d4f69d1 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/ks/visual_norm.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/ks/visual_norm.textproto
@@ -88,6 +88,11 @@ item {
   to_uname: "YEH WITH SMALL V" to_raw: "ێ"
 }
 
+item {
+  uname: ["YEH", "VOWEL SIGN SMALL V ABOVE"] raw: "يٚ"
+  to_uname: "YEH WITH SMALL V" to_raw: "ێ"
+}
+
 # Unattested.
 #item {
 #  uname: ["YEH", "HAMZA ABOVE"] raw: "ئ"
diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/ms/visual_norm.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/ms/visual_norm.textproto
index 29a80bf..c02ce68 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/ms/visual_norm.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/ms/visual_norm.textproto
@@ -115,3 +115,8 @@
 #  uname: ["DOTLESS BEH", "VOWEL SIGN DOT BELOW"] raw: "ٮٜ"
 #  to_uname: "BEH" to_raw: "ب"
 #}
+
+item {
+  uname: ["FARSI YEH", "HAMZA ABOVE"] raw: "یٔ"
+  to_uname: "YEH WITH HAMZA ABOVE" to_raw: "ئ"
+}
diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/ug/visual_norm.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/ug/visual_norm.textproto
index 286021e..5da728d 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/ug/visual_norm.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/ug/visual_norm.textproto
@@ -77,6 +77,11 @@ item {
  to_uname: "NG" to_raw: "ڭ"
 }
 
+item {
+  uname: ["KEHEH", "SMALL HIGH THREE DOTS"] raw: "کۛ"
+  to_uname: "NG" to_raw: "ڭ"
+}
+
 item {
  uname: ["WAW", "SMALL HIGH THREE DOTS"] raw: "وۛ"
  to_uname: "VE" to_raw: "ۋ"
diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/uz/visual_norm.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/uz/visual_norm.textproto
index 68389cd..5398534 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/uz/visual_norm.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/uz/visual_norm.textproto
@@ -39,6 +39,11 @@ item {
   to_uname: "NG" to_raw: "ڭ"
 }
 
+item {
+  uname: ["KEHEH", "SMALL HIGH THREE DOTS"] raw: "کۛ"
+  to_uname: "NG" to_raw: "ڭ"
+}
+
 item {
   uname: ["WAW", "DAMMA"] raw: "وُ"
   to_uname: "U" to_raw: "ۇ"
-- 
2.43.0


From d7e43a48b68a465c1bdacc624f3b4094f903c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 08/66] fix: accept an empty set of ignored characters in the
 normalizer APIs

---
 nisaba/scripts/abjad_alphabet/__init__.py | 3 ++-
 nisaba/scripts/brahmic/__init__.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/abjad_alphabet/__init__.py b/nisaba/scripts/abjad_alphabet/__init__.py
index 29de936..2573be5 100644
--- a/nisaba/scripts/abjad_alphabet/__init__.py
+++ b/nisaba/scripts/abjad_alphabet/__init__.py
@@ -93,7 +93,8 @@ class Normalizer(object):
     except KeyError as error:
       raise TagError(f'Unsupported language/script: {tag}') from error
     else:
-      self.accept_pat = re.compile(r'[^{}]+'.format(re.escape(ignore)))
+      self.accept_pat = re.compile(
+          r'[^{}]+'.format(re.escape(ignore)) if ignore else r'(?s:.+)')
 
   def ApplyOnWord(self, word: str) -> str:
     """Normalize a entire word."""
diff --git a/nisaba/scripts/brahmic/__init__.py b/nisaba/scripts/brahmic/__init__.py
index cf5a4d6..309913c 100644
--- a/nisaba/scripts/brahmic/__init__.py
+++ b/nisaba/scripts/brahmic/__init__.py
@@ -100,7 +100,8 @@ class NormalizingAcceptor(object):
     except KeyError as e:
       raise ScriptError('Unsupported language script: {}'.format(e)) from e
     else:
-      self.accept_pat = re.compile(r'[^{}]+'.format(re.escape(ignore)))
+      self.accept_pat = re.compile(
+          r'[^{}]+'.format(re.escape(ignore)) if ignore else r'(?s:.+)')
 
   def ApplyOnWord(self, word: str) -> str:
     """Normalize or reject a entire word."""
-- 
2.43.0


From 3c29b80ed6b981db4bdd6bb2e937de897d385d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 09/66] fix: resolve named character sequences in uname fields

---
 nisaba/scripts/utils/unicode_strings_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..2ed821d 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -41,7 +41,8 @@ def name_to_char(prefixes: Sequence[str], suffix: str) -> tuple[str, str]:
     uname = (prefix + ' ' + suffix).lstrip()
     try:
       char = unicodedata.lookup(uname)
-      if unicodedata.category(char) != 'Cc':
+      # Named sequences have several characters, none of them a control.
+      if len(char) > 1 or unicodedata.category(char) != 'Cc':
         char_names.append((char, uname))
     except KeyError:
       pass
-- 
2.43.0


From af867f20549897c234a96afae874b12e54142667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 10/66] fix: read lists of Unicode strings, which have no
 destination, from text protos

---
 nisaba/scripts/utils/unicode_strings_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index 2ed821d..c2d568a 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -164,9 +164,11 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    if to_raw is not None:
+      item.to_raw = to_raw
 
 
 def read_textproto(
-- 
2.43.0


From 5628c263b54b095f1f1b63d3f1b9c2fe26e170ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 11/66] fix: read digits and quotes in rewrite rule files as
 text

---
 nisaba/scripts/utils/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/rule.py b/nisaba/scripts/utils/rule.py
index d98b12c..f611bad 100644
--- a/nisaba/scripts/utils/rule.py
+++ b/nisaba/scripts/utils/rule.py
@@ -60,6 +60,7 @@ CDRewrites of the FSTs from each rule.
 """
 
 from collections.abc import Iterable, Iterator
+import csv
 import itertools as it
 import os
 from typing import NamedTuple
@@ -86,7 +87,8 @@ def rules_from_string_path(file: os.PathLike[str]) -> Iterator[Rule]:
   """Yields string rules from a text file with unweighted string maps."""
   with pathlib.Path(file).open('rt') as f:
     df = pd.read_csv(f, sep='\t', comment='#', escapechar='\\',
-                     names=['lhs', 'rhs'], na_filter=False)
+                     names=['lhs', 'rhs'], na_filter=False, dtype=str,
+                     quoting=csv.QUOTE_NONE)
     for row in df.itertuples(index=False, name='Rule'):
       if not row.lhs:
         raise ValueError('Rule expects an LHS: {}'.format(row))
-- 
2.43.0


From dbcb674b0824fe2764275ee935a70c011be24095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 12/66] fix: double only the stop of an aspirated consonant
 after addak

The rule had a doubled form for both the aspirated consonant and the
consonant it starts with, so there were two results of equal weight.
---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 0192fdf..de68aa1 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -242,7 +242,7 @@ H_ASP = rw.reassign(
 # An affricate is doubled as a whole, not just the stop it starts with.
 ADDAK = (
     rw.rewrite_ls(
-        [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+        [(char.ph, char.ph + char.ph) for char in iso.SIMPLE_CONSONANT], ph.SIL
     )
     @ rw.rewrite(ph.T + ph.T_SH, ph.T_SH + ph.T_SH, ph.SIL)
 )
-- 
2.43.0


From 3af84e1b3d1b1ff0c3e9ee49d9cee697acbb2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:48 +0000
Subject: [PATCH 13/66] fix: spell geminates in Malayalam and Tamil as in the
 other languages

The rules look for Latin letters, but were applied before there are any, so
that cc gave chch instead of cch.
---
 nisaba/scripts/natural_translit/language_params/ml.py | 6 +++---
 nisaba/scripts/natural_translit/language_params/ta.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/natural_translit/language_params/ml.py b/nisaba/scripts/natural_translit/language_params/ml.py
index 0c18da5..4dc065a 100644
--- a/nisaba/scripts/natural_translit/language_params/ml.py
+++ b/nisaba/scripts/natural_translit/language_params/ml.py
@@ -54,9 +54,6 @@ _TXN_OPS = fl.FstList(
 _NAT_OPS = fl.FstList(
     romanizer.EN_LIKE_LONG,
     romanizer.TI_TH,
-    romanizer.CC_TO_CCH,
-    romanizer.CCH_TO_CHH,
-    romanizer.S_SHSH_TO_SSH,
     romanizer.SIBV_TO_SIBW,
     romanizer.NY_N,
     romanizer.NY_GN,
@@ -86,6 +83,9 @@ def iso_to_nat() -> fl.FstList:
       _NAT_OPS,
       romanizer.TXN_TO_PSA_COMMON,
       romanizer.TRANSLIT_BY_PSA,
+      romanizer.CC_TO_CCH,
+      romanizer.CCH_TO_CHH,
+      romanizer.S_SHSH_TO_SSH,
       ltn.print_only_ltn(),
   )
 
diff --git a/nisaba/scripts/natural_translit/language_params/ta.py b/nisaba/scripts/natural_translit/language_params/ta.py
index 12fde7c..f876faf 100644
--- a/nisaba/scripts/natural_translit/language_params/ta.py
+++ b/nisaba/scripts/natural_translit/language_params/ta.py
@@ -90,9 +90,6 @@ _NAT_OPS = fl.FstList(
     romanizer.OO_OA,
     romanizer.TI_TH,
     romanizer.TT_TR,
-    romanizer.CC_TO_CCH,
-    romanizer.CCH_TO_CHH,
-    romanizer.S_SHSH_TO_SSH,
     romanizer.SIBV_TO_SIBW,
     romanizer.NY_N,
     romanizer.NY_GN,
@@ -122,6 +119,9 @@ def iso_to_nat() -> fl.FstList:
       _NAT_OPS,
       romanizer.TXN_TO_PSA_COMMON,
       romanizer.TRANSLIT_BY_PSA,
+      romanizer.CC_TO_CCH,
+      romanizer.CCH_TO_CHH,
+      romanizer.S_SHSH_TO_SSH,
       ltn.print_only_ltn(),
   )
 
-- 
2.43.0


From 9260a30c615f6e464b15e48c43e441c395d62c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 14/66] fix: compare expressions whose symbol lists recur

A concatenation can have the same symbol list in several ways, so that an
item that accepts all of its lists can have fewer of them.
---
 nisaba/scripts/natural_translit/utils/symbol.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e0b214..ed4341f 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -97,14 +97,15 @@ class Item(ty.Thing):
           equivalent and self.is_expression_any() and other.is_expression_any()
       ) or not equivalent
     self_symbols, other_symbols = self.symbols(), other.symbols()
-    self_len, other_len = len(self_symbols), len(other_symbols)
-    if (
-        not self_len
-        or self_len < other_len
-        or (equivalent and self_len != other_len)
-    ):
-      return False
-    return all(sym_list in self_symbols for sym_list in other_symbols)
+    # The lists can recur, so their numbers can't be compared.
+    return (
+        bool(self_symbols)
+        and all(sym_list in self_symbols for sym_list in other_symbols)
+        and (
+            not equivalent
+            or all(sym_list in other_symbols for sym_list in self_symbols)
+        )
+    )
 
   def is_equivalent(self, other: Item) -> bool:
     return self.accepts(other, equivalent=True)
-- 
2.43.0


From 4913572d19b19d1c8ae9539ee1e5f7603a546fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 15/66] fix: match the ends of items by their symbols, not by
 their length

A plain Symbol has no length, so it was never a prefix or a suffix of an
expression; and the atomic epsilon has one, so it always was.
---
 nisaba/scripts/natural_translit/utils/symbol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index ed4341f..d5fb578 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -237,6 +237,10 @@ class Item(ty.Thing):
   def matches(self, other: Item) -> bool:
     return self.contains(other, match_head=True, match_tail=True)
 
+  def _has_symbols(self) -> bool:
+    """Checks if this item has a symbol list other than [ℰ]."""
+    return any(sym_list != [Symbol.CTRL.eps] for sym_list in self.symbols())
+
   # head_matches and tail_matches require at least one symbol match unless
   # both expressions are only contain [ℰ] or one of the arguments is
   # Expression.ANY.
@@ -244,7 +248,7 @@ class Item(ty.Thing):
   # following context, the rule shouldn't apply.
 
   def head_matches(self, other: Item) -> bool:
-    if self and not other:
+    if self._has_symbols() and not other._has_symbols():
       return other.is_expression_any()
     return self.contains(other, match_head=True)
 
@@ -252,7 +256,7 @@ class Item(ty.Thing):
     return other.head_matches(self)
 
   def tail_matches(self, other: Item) -> bool:
-    if self and not other:
+    if self._has_symbols() and not other._has_symbols():
       return other.is_expression_any()
     return self.contains(other, match_tail=True)
 
-- 
2.43.0


From 637fa08abbbdae5e3afed909e55a7d603e022913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 16/66] fix: show nested expressions in alignments

The text of a nested Cat or Or is a default one with its hash.
---
 nisaba/scripts/natural_translit/utils/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/expression.py b/nisaba/scripts/natural_translit/utils/expression.py
index 7a46f45..4a5390d 100644
--- a/nisaba/scripts/natural_translit/utils/expression.py
+++ b/nisaba/scripts/natural_translit/utils/expression.py
@@ -357,7 +357,7 @@ class _BaseAlignment(Expression):
   def _side_str(self, side: Expression) -> str:
     if side.is_any() or len(side) != 1:
       return str(side)
-    return side.item(0).text
+    return str(side.item(0))
 
   def _aligned_str(self) -> str:
     """Returns strings of sides separated by ratio symbol (u2236)."""
@@ -553,8 +553,8 @@ class Alignment(_BaseAlignment):
   def tsv_row(self) -> str:
     return '\t'.join([
         self.alias,
-        ''.join([item.text for item in self.left]),
-        ''.join([item.text for item in self.right]),
+        ''.join([str(item) for item in self.left]),
+        ''.join([str(item) for item in self.right]),
         str(self.operation.match),
         str(self.applied_cost),
     ])
-- 
2.43.0


From 7e5e9d93718e234484ec2288538898f4d136fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 17/66] fix: apply the cost of an alignment when it is an
 integer

The cost can be an int or a float, but an int was ignored and the base cost
of the operation applied instead.
---
 nisaba/scripts/natural_translit/utils/expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/expression.py b/nisaba/scripts/natural_translit/utils/expression.py
index 4a5390d..1390a95 100644
--- a/nisaba/scripts/natural_translit/utils/expression.py
+++ b/nisaba/scripts/natural_translit/utils/expression.py
@@ -506,8 +506,10 @@ class Alignment(_BaseAlignment):
     self.to_eos = to_eos
     self.operation = operation
     self.priority = priority
-    self.applied_cost = ty.type_check(
-        applied_cost, float(self.operation.base_cost)
+    self.applied_cost = float(
+        applied_cost
+        if isinstance(applied_cost, (int, float))
+        else self.operation.base_cost
     )
     self.source = source
 
-- 
2.43.0


From ec0c8175beb79e203f1b3039c3d7837aebf7da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 18/66] fix: look features up in value lists and aspects
 without endless recursion

value_in() asks the object for has_feature(), which asked value_in() again.
---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 2f7a0ea..98e79e3 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -498,7 +498,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: Feature.Aspect.VALUES) -> bool:
       """Checks if the given value or one of its children is in this list."""
-      return value.is_in(self)
+      return self.set().has_feature(value)
 
     def is_in(self, obj) -> bool:
       """Checks if this list is contained within the given object."""
@@ -651,7 +651,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: VALUES) -> bool:
       """Checks if the given value or one of its children is in this aspect."""
-      return value.is_in(self)
+      return Feature.Set(self).has_feature(value)
 
     def is_applicable(self, profile: Feature.Profile) -> bool:
       """Checks if this aspect is applicable to the given profile."""
-- 
2.43.0


From b071b48abe3e3c8b49f08f94e0e07371d95413c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 19/66] fix: find the values of a list in iterables of features

As documented, a value list is in an iterable when one of its values is.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 98e79e3..1309b85 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -1085,5 +1085,5 @@ def value_in(value: Feature.Aspect.VALUES, obj) -> bool:
       (hasattr(obj, 'has_feature') and obj.has_feature(value))
       or obj == value
       or obj in value.parent_list
-      or (isinstance(obj, Iterable) and value in Feature.Set(obj))
+      or (isinstance(obj, Iterable) and Feature.Set(obj).has_feature(value))
   )
-- 
2.43.0


From 150efd3a73e1600af96790ea75abe33a01b599c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 20/66] fix: compare profiles by aspects that have no distances

The similarity divided by zero when the aspects compared have one value each
or only values without a quantitative difference.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 1309b85..232e742 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -901,7 +901,7 @@ class Feature(ty.Thing):
               ', '.join(item2.sorted_item_texts()),
               f'{dist:.2f}',
           ])
-      similarity = 1 - total_dist / max_dist
+      similarity = 1 - total_dist / max_dist if max_dist else 1
       table.extend([
           ['Total distance', '', '', f'{total_dist:.2f}'],
           ['Similarity', '', '', f'{similarity:.3f}'],
-- 
2.43.0


From c900c8bb989eacaf6f600fd37f972e4803463740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 21/66] fix: make the distances of a value list symmetric

They were negative when the second value comes first in a linear or cyclic
list, and that of a value of an equidistant list to itself was not zero.
---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 232e742..a303138 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -398,10 +398,10 @@ class Feature(ty.Thing):
     ) -> float:
       if values1 not in self or values2 not in self:
         return Feature.ERROR_DISTANCE
-      delta = self._items.index(values2) - self._items.index(values1)
+      delta = abs(self._items.index(values2) - self._items.index(values1))
       match self.list_type:
         case Feature.ValueListType.EQUIDISTANT:
-          return self.step
+          return self.step if delta else 0
         case Feature.ValueListType.LINEAR:
           return delta * self.step
         case Feature.ValueListType.CYCLIC:
-- 
2.43.0


From db6f16cc6ce2239241f3cd44fb445ea6ee0ee7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 22/66] fix: show the features any and n_a

They have no distances of their own, and str() failed on them.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index a303138..01271b4 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -153,7 +153,7 @@ class Feature(ty.Thing):
         self.add_distance(value, distance)
 
   def distance_dict(self) -> dict[Feature, float]:
-    return self.aspect.distance_dict.get(self)
+    return self.aspect.distance_dict.get(self, {})
 
   def distance(self, features: Feature.ITERABLE) -> float:
     """The distance between this feature and the given feature or feature set.
-- 
2.43.0


From 3220311b3d86ea570d6ae2c53679cc4e1c3dbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 23/66] fix: let the range of values that are not of the list
 be empty

It raised an IndexError when one of them is any, n_a or the root list.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 01271b4..b08aafc 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -487,7 +487,7 @@ class Feature(ty.Thing):
       of nesting, especially with mixed list types.
       ```
       """
-      if first.parent_list[0] != self or last.parent_list[0] != self:
+      if first not in self or last not in self:
         return Feature.Set()
       i1, i2 = self._items.index(first), self._items.index(last)
       start, stop = min(i1, i2), max(i1, i2)
-- 
2.43.0


From e181c34e413b99f0bbd89bed2b140bb5f0f7cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 24/66] fix: get no values of a profile for an aspect of
 another inventory

The values of an aspect with the same alias were returned for it.
---
 nisaba/scripts/natural_translit/utils/feature.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index b08aafc..1fccd45 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -811,10 +811,12 @@ class Feature(ty.Thing):
         inventory_alias = 'missing'
       else:
         inventory_alias = aspect.inventory.alias
-      return super().get(
-          aspect.alias,
-          Feature.Set(aspect.n_a, alias=f'{inventory_alias}_{aspect.alias}'),
+      not_applicable = Feature.Set(
+          aspect.n_a, alias=f'{inventory_alias}_{aspect.alias}'
       )
+      if aspect.inventory != self.inventory:
+        return not_applicable
+      return super().get(aspect.alias, not_applicable)
 
     def copy(self, alias: str) -> Feature.Profile:
       return Feature.Profile(self.inventory, alias, *self)
-- 
2.43.0


From 8fe788a403514846c0cb124dc098ae4706aced74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 25/66] fix: give each lattice its own FST and error node

The defaults were shared, so that the error state of a second lattice was a
state of the FST of the first one, and lattices added states to one FST.
---
 .../scripts/natural_translit/utils/lattice.py  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..6f67b34 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Union
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -41,12 +43,12 @@ class Node(ty.Thing):
       text: str = '',
       x: int = -1,
       y: int = -1,
-      fst: pyn.Fst = pyn.Fst(),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
   ):
     super().__init__(alias, text)
     self.x = x
     self.y = y
-    self.fst = fst
+    self.fst = pyn.Fst() if isinstance(fst, ty.Nothing) else fst
     self.state = ty.UNASSIGNED
 
   def __str__(self):
@@ -78,22 +80,22 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
+      error: Union[Node, ty.Nothing] = ty.UNSPECIFIED,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = pyn.Fst() if isinstance(fst, ty.Nothing) else fst
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
-    self.error = error
-    if error.fst is not self.fst:
-      error.fst = self.fst
+    self.error = Node('error') if isinstance(error, ty.Nothing) else error
+    if self.error.fst is not self.fst:
+      self.error.fst = self.fst
     if not self.error.has_state():
       self.error.state = self.fst.add_state()
     if populate:
-- 
2.43.0


From 12547417f3d051c250abcfd6d202889617d2a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 26/66] fix: leave phonemes that an inventory already has as
 they are

Adding a phoneme again, or one with a recurring alias, changed its index to
that of the next phoneme and its language, although it was not added.
---
 .../scripts/natural_translit/phonology/phonological_symbol.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
index b1aaff0..72bf967 100644
--- a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
+++ b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
@@ -176,6 +176,8 @@ class Phon(PhonologicalSymbol):
 
     def _add_phoneme(self, phoneme: Phon) -> bool:
       """Adds a phoneme to the inventory."""
+      if phoneme.alias in self.__dict__:
+        return False
       phoneme.language = self.language
       phoneme.index = (
           Phon.ReservedIndex.PHONEME_PREFIX
-- 
2.43.0


From e553f33f5b2d981cca6fb068fa855ee19a37f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 27/66] fix: keep the inventory that a grapheme is first
 defined in

---
 nisaba/scripts/natural_translit/script/grapheme.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/script/grapheme.py b/nisaba/scripts/natural_translit/script/grapheme.py
index d639a6d..40552be 100644
--- a/nisaba/scripts/natural_translit/script/grapheme.py
+++ b/nisaba/scripts/natural_translit/script/grapheme.py
@@ -193,7 +193,6 @@ class Grapheme(ps.PhonologicalSymbol):
         if self._add_symbol_and_atomic(gr):
           gr.language = self.language
           grs.append(gr)
-          gr.inventory = self
       if list_alias:
         self.make_iterable_suppl(list_alias, *grs)
       return grs
-- 
2.43.0


From a60489577c52d88ca1af3720af072de4729fe344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 28/66] fix: copy all features of phons and graphemes

Those of added profiles were lost, and changed types were mixed with the
default one.
---
 .../natural_translit/phonology/phonological_symbol.py        | 5 +++--
 nisaba/scripts/natural_translit/script/grapheme.py           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
index 72bf967..1694d10 100644
--- a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
+++ b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
@@ -158,14 +158,15 @@ class Phon(PhonologicalSymbol):
       ipa: str = '',
   ) -> Phon:
     """Creates a copy of the Phon."""
-    return Phon(
+    new = Phon(
         language=ty.type_check(language, self.language),
         alias=alias if alias else self.alias,
         ipa=ipa if ipa else self.ipa,
         index=self.index,
         name=self.name,
-        features=self.features.copy(),
     )
+    new.features = self.features.copy(new.alias)
+    return new
 
   class Inventory(PhonologicalSymbol.Inventory):
     """Phon inventory."""
diff --git a/nisaba/scripts/natural_translit/script/grapheme.py b/nisaba/scripts/natural_translit/script/grapheme.py
index 40552be..398fd5b 100644
--- a/nisaba/scripts/natural_translit/script/grapheme.py
+++ b/nisaba/scripts/natural_translit/script/grapheme.py
@@ -157,14 +157,15 @@ class Grapheme(ps.PhonologicalSymbol):
       inventory: Grapheme.Inventory.OR_NOTHING = ty.UNSPECIFIED,
   ) -> Grapheme:
     """Creates a copy of the Grapheme."""
-    return Grapheme(
+    new = Grapheme(
         alias if alias else self.alias,
         self.text,
         self.raw,
         self.index,
         self.name,
-        features=self.features.copy(),
     )
+    new.features = self.features.copy(new.alias)
+    return new
 
   class Inventory(ps.PhonologicalSymbol.Inventory):
     """Grapheme inventory."""
-- 
2.43.0


From c35baf9167451f541a1859ca22a3b9423aed1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 29/66] fix: add symbols from unknown with an alias that is not
 taken

A new symbol with the alias of one from another inventory was not added, so
that the same character became another symbol each time.
---
 nisaba/scripts/natural_translit/utils/symbol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index d5fb578..d2d6bbc 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -657,6 +657,9 @@ class Symbol(Item):
       """Makes and adds a new raw symbol to the inventory from a string."""
       self.unknown_count += 1
       alias = 'from_unk_' + str(self.unknown_count)
+      while alias in self.__dict__:
+        self.unknown_count += 1
+        alias = 'from_unk_' + str(self.unknown_count)
       name = alias + '_' + raw
       text = '<' + name + '>'
       index = self.prefix + self.unknown_count
-- 
2.43.0


From b8394329e1f930c5dd566b5f8860128aad594b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 30/66] =?UTF-8?q?fix:=20give=20the=20close-mid=20vowel=20/?=
 =?UTF-8?q?=C3=B8/=20its=20height?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 nisaba/scripts/natural_translit/phonology/inventories/x_uni.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
index 86f8745..7eec2eb 100644
--- a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
+++ b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
@@ -74,7 +74,7 @@ def _phoneme_inventory() -> po.Phon.Inventory:
     open_mid_vowel.update_descriptives(phf.height.open_mid)
   for mid_vowel in [ph.ec]:
     mid_vowel.update_descriptives(phf.height.mid)
-  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.ol]:
+  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.oi, ph.ol]:
     close_mid_vowel.update_descriptives(phf.height.close_mid)
   for near_close_vowel in [ph.iy, ph.uv, ph.uy]:
     near_close_vowel.update_descriptives(phf.height.near_close)
-- 
2.43.0


From 0b3aa6d5ae184f63b5fb4705f51086c0e86a58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 31/66] fix: list forms of rewrite_repeated and reassign make
 one obligatory rule

---
 .../natural_translit/utils/rewrite_functions.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/rewrite_functions.py b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
index a250525..3f760f9 100644
--- a/nisaba/scripts/natural_translit/utils/rewrite_functions.py
+++ b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
@@ -129,8 +129,14 @@ def rewrite_repeated_ls(
     preceding: pyn.FstLike = al.EPSILON,
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Rewrites a repeated string or fst. By default reduces it to one."""
+
+  def cross_repeated(
+      repeated: pyn.FstLike, new: pyn.FstLike = ''
+  ) -> pyn.Fst:
+    return pyn.cross(cc.repeat(repeated), new if new else repeated)
+
   return rewrite_op(
-      fl.FstList.make(rewrite_repeated, *list_comp).union_opt(),
+      fl.FstList.make(cross_repeated, *list_comp).union_opt(),
       preceding,
       following)
 
@@ -183,7 +189,7 @@ def reassign_ls(
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Shorthand for when the op loops over a list."""
   return rewrite_op(
-      fl.FstList.make(reassign, *list_comp).union_opt(),
+      fl.FstList.make(al.realign, *list_comp).union_opt(),
       preceding,
       following)
 
-- 
2.43.0


From 1ec493ea72e9150f43eda7cc9db6eccc3a6500f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 32/66] fix: derived phonemes get a copy of the base
 transliteration by default

---
 nisaba/scripts/natural_translit/phonology/modify_phon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/modify_phon.py b/nisaba/scripts/natural_translit/phonology/modify_phon.py
index a7887e8..95ab362 100644
--- a/nisaba/scripts/natural_translit/phonology/modify_phon.py
+++ b/nisaba/scripts/natural_translit/phonology/modify_phon.py
@@ -83,7 +83,7 @@ MOD = p.phon_inventory(
 def derive_with_suffix(
     phon: p.Phon,
     modifier: p.Phon,
-    new_tr: pyn.Fst = pyn.Fst()
+    new_tr: ty.FstIterable = ty.UNSPECIFIED,
 ) -> p.Phon:
   """Makes a new Phon from a phoneme Phon and a suffix Phon.
 
-- 
2.43.0


From 4f89316c75b47ff9c7bce4e21bca67e3fdc9d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 33/66] fix: the phoneme gu is velar, as its IPA symbol is

---
 nisaba/scripts/natural_translit/phonology/docs/phon_table.md   | 2 +-
 nisaba/scripts/natural_translit/phonology/phoneme_inventory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/phonology/docs/phon_table.md b/nisaba/scripts/natural_translit/phonology/docs/phon_table.md
index 25b3fa6..19fed3c 100644
--- a/nisaba/scripts/natural_translit/phonology/docs/phon_table.md
+++ b/nisaba/scripts/natural_translit/phonology/docs/phon_table.md
@@ -242,7 +242,7 @@ RU       | ru       | {ru}           | base: r    | base: r            |
 RXU      | rxu      | {rxu}          | base: r    | base: r            |          | `` ɹ̠ ``     | approximant, voiced, postalveolar
 RRU      | rru      | {rru}          | base: r    | base: r            |          | `` ɻ ``      | approximant, voiced, retroflex
 Y        | y        | {y}            | base: y    | base: y            |          | `` j ``      | approximant, voiced, palatal
-GU       | gu       | {gu}           | base: w    | base: w            |          | `` ɰ ``      | approximant, voiced, palatal
+GU       | gu       | {gu}           | base: w    | base: w            |          | `` ɰ ``      | approximant, voiced, velar
 JU       | ju       | {ju}           | base: w    | base: w            |          | `` ʁ̞ ``     | approximant, voiced, uvular
 HHU      | hhu      | {hhu}          | base: h    | base: h            |          | `` ʡ̞ ``     | approximant, voiced, pharyngeal
 HU       | hu       | {hu}           | base: h    | base: h            |          | `` ʔ̞ ``     | approximant, voiced, glottal
diff --git a/nisaba/scripts/natural_translit/phonology/phoneme_inventory.py b/nisaba/scripts/natural_translit/phonology/phoneme_inventory.py
index 18df71f..6e58f81 100644
--- a/nisaba/scripts/natural_translit/phonology/phoneme_inventory.py
+++ b/nisaba/scripts/natural_translit/phonology/phoneme_inventory.py
@@ -249,7 +249,7 @@ CENTRAL_APPROXIMANT = [p.Phon.base(*args) for args in [
     ['rxu', f.central_approximant + [f.postalveolar], 'ɹ̠', tr.R],
     ['rru', f.central_approximant + [f.retroflex], 'ɻ', tr.R],
     ['y', f.central_approximant + [f.palatal], 'j', tr.Y],
-    ['gu', f.central_approximant + [f.palatal], 'ɰ', tr.W],
+    ['gu', f.central_approximant + [f.velar], 'ɰ', tr.W],
     ['ju', f.central_approximant + [f.uvular], 'ʁ̞', tr.W],
     ['hhu', f.central_approximant + [f.pharyngeal], 'ʡ̞', tr.H],
     ['hu', f.central_approximant + [f.glottal], 'ʔ̞', tr.H],
-- 
2.43.0


From 2848f6451bb472c7f40c141350e696ba5d32d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 34/66] fix: pairwise edits of files which leave out an example

An index with neither references nor outputs had no entry in the vector of
edit matrices, so that the matrices of all later examples were those of other
examples, the last ones read past the end, and the line of the missing example
was not valid JSON.
---
 nisaba/translit/tools/calculate_error_rate.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index aade700..8bfb9dc 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -298,6 +298,9 @@ void MultiRefErrorRate::WriteErrorRate(std::ofstream &output_file) {
 
 void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
   for (int idx = 0; idx < references_.size(); ++idx) {
+    if (references_[idx].empty()) {
+      continue;  // Nothing to compare for this example.
+    }
     // Writes system outputs with probabilities.
     impl::LineToFile(output_file, "{\"hyp\": {", /*newline=*/false);
     const auto p1 =
@@ -453,6 +456,9 @@ void MultiRefErrorRate::CalculatePairwiseErrors(int idx) {
 void MultiRefErrorRate::CalculateErrorRate(int idx, bool pairwise_edits) {
   if (references_[idx].empty()) {
     // Nothing to do for this example.
+    if (pairwise_edits) {
+      pairwise_edits_.emplace_back();  // Keeps the examples aligned.
+    }
     return;
   }
   if (pairwise_edits) {
-- 
2.43.0


From ea3142df787a9886f763d639550dce5535898128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 35/66] fix: probabilities of outputs whose costs are all large

The sum of the probabilities underflowed to zero for negative log
probabilities above 745, as of whole sentences, and the normalized
probabilities were written as nan or inf.
---
 nisaba/translit/tools/calculate_error_rate.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 8bfb9dc..280193f 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -14,8 +14,10 @@
 
 #include "nisaba/translit/tools/calculate_error_rate.h"
 
+#include <algorithm>
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -179,13 +181,18 @@ std::vector<std::string> MaybeSplitChars(absl::string_view str,
   return tokenized_string;
 }
 
-// Accumulates a normalizer from a vector of pairs including -log weights.
+// Accumulates a normalizer from a vector of pairs including -log weights. The
+// sum is relative to the lowest weight, so that it does not underflow.
 double GetNormalizer(const std::vector<std::pair<int, double>> &input_pairs) {
+  double min_weight = std::numeric_limits<double>::infinity();
+  for (const auto &input_pair : input_pairs) {
+    min_weight = std::min(min_weight, input_pair.second);
+  }
   double exp_sum = 0.0;
-  for (const auto input_pair : input_pairs) {
-    exp_sum += exp(-input_pair.second);
+  for (const auto &input_pair : input_pairs) {
+    exp_sum += exp(min_weight - input_pair.second);
   }
-  return -log(exp_sum);
+  return min_weight - log(exp_sum);
 }
 
 // Writes vector of candidates to output file in expected json format, after
-- 
2.43.0


From bf895b767b2e86d0828d289440a2339ae8b48b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:06 +0000
Subject: [PATCH 36/66] fix: escape the strings in the JSON output of pairwise
 edits

A quotation mark or a backslash in a reference or an output made the line
unreadable for calculate_emd_cer.
---
 nisaba/translit/tools/calculate_error_rate.cc | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 280193f..8b1669c 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -195,6 +195,22 @@ double GetNormalizer(const std::vector<std::pair<int, double>> &input_pairs) {
   return min_weight - log(exp_sum);
 }
 
+// Returns the string as a quoted json string.
+std::string QuotedJsonString(absl::string_view str) {
+  std::string quoted = "\"";
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      absl::StrAppend(&quoted, "\\", absl::string_view(&c, 1));
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppend(&quoted, "\\u", absl::Hex(c, absl::kZeroPad4));
+    } else {
+      quoted.push_back(c);
+    }
+  }
+  quoted.push_back('"');
+  return quoted;
+}
+
 // Writes vector of candidates to output file in expected json format, after
 // normalizing the weights, and returns vector of probabilities.
 std::vector<double> WriteCands(std::ofstream &output_file,
@@ -206,10 +222,11 @@ std::vector<double> WriteCands(std::ofstream &output_file,
   for (int i = 0; i < cands.size(); ++i) {
     const std::string hyp_word = syms.Find(cands[i].first);
     probs.push_back(exp(-cands[i].second + norm));
-    const std::string delim = i > 0 ? ", \"" : "\"";
-    impl::LineToFile(output_file,
-                     absl::StrCat(delim, hyp_word, "\": ", probs[i]),
-                     /*newline=*/false);
+    const std::string delim = i > 0 ? ", " : "";
+    impl::LineToFile(
+        output_file,
+        absl::StrCat(delim, QuotedJsonString(hyp_word), ": ", probs[i]),
+        /*newline=*/false);
   }
   return probs;
 }
-- 
2.43.0


From cbf51d56edeafd2c08d5a6d1b80095f1857c9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:19 +0000
Subject: [PATCH 37/66] fix: lengths of references in pairwise edits

The distances are between the tokens of the references, i.e. words without
split_chars and characters with normalized whitespace with it, but the lengths
counted the characters as they were in the file.
---
 nisaba/translit/tools/calculate_error_rate.cc | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 8b1669c..b532174 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -283,17 +283,6 @@ std::string GetDistances(const std::vector<std::vector<int>> &dists) {
   return absl::StrJoin(dist_arrays, ", ");
 }
 
-// Returns vector of lengths of strings in cands.
-std::vector<int> GetLengths(const std::vector<std::pair<int, double>> &cands,
-                            const fst::SymbolTable &syms) {
-  std::vector<int> lengths;
-  lengths.reserve(cands.size());
-  for (const auto cand : cands) {
-    lengths.push_back(utf8::StrSplitByChar(syms.Find(cand.first)).size());
-  }
-  return lengths;
-}
-
 }  // namespace
 }  // namespace impl
 
@@ -351,12 +340,18 @@ void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
     impl::LineToFile(output_file, ", \"D\": [", /*newline=*/false);
     impl::LineToFile(output_file, impl::GetDistances(pairwise_edits_[idx]),
                      /*newline=*/false);
-    // Writes lengths of references (zeros for system items, not used).
+    // Writes lengths of references (zeros for system items, not used), in the
+    // tokens that the distances count.
+    std::vector<int> lengths;
+    lengths.reserve(references_[idx].size());
+    for (int k = 0; k < references_[idx].size(); ++k) {
+      lengths.push_back(GetTokenizedString(idx, k).size());
+    }
     impl::LineToFile(output_file, "], \"L\": ", /*newline=*/false);
     impl::LineToFile(output_file,
                      impl::GetBracketedVectorString(
                          std::vector<int>(test_input_[idx].size(), 0),
-                         impl::GetLengths(references_[idx], output_syms_)),
+                         lengths),
                      /*newline=*/false);
     impl::LineToFile(output_file, "}", /*newline=*/true);
   }
-- 
2.43.0


From e9e86603b317f65fa2c0e25831f44ae79bc4e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 38/66] fix: empty outputs in the inputs of the error rate
 calculation

The empty second column of an empty output was skipped, and the output's cost
was read as the output.
---
 nisaba/translit/tools/calculate_error_rate.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index b532174..ff16b74 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -379,8 +379,7 @@ void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
   QCHECK(input_lines_status.ok()) << "Failed to read " << input_file;
   const std::vector<std::string> input_lines = input_lines_status.value();
   for (const std::string &str : input_lines) {
-    const std::vector<std::string> seq =
-        absl::StrSplit(str, '\t', absl::SkipEmpty());
+    const std::vector<std::string> seq = absl::StrSplit(str, '\t');
     QCHECK_GE(seq.size(), 2);
     int input_idx = std::stoi(seq[0]);
     int osym = 0;
@@ -392,8 +391,8 @@ void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
     }
     // Default count (in reference) is 1.0; otherwise default (-logP) is 0.0.
     double item_value = is_reference ? 1.0 : 0.0;
-    if (seq.size() > 2) {
-      QCHECK_LE(seq.size(), 3);
+    QCHECK_LE(seq.size(), 3);
+    if (seq.size() > 2 && !seq[2].empty()) {
       item_value = std::stod(seq[2]);
     }
     if (is_reference) {
-- 
2.43.0


From c4645f0581f15d294aadc07ced1d942bd991e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 39/66] fix: empty outputs in pairwise edits are empty strings

They were written as the string <epsilon>.
---
 nisaba/translit/tools/calculate_error_rate.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index ff16b74..edf06fd 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -220,7 +220,9 @@ std::vector<double> WriteCands(std::ofstream &output_file,
   std::vector<double> probs;
   probs.reserve(cands.size());
   for (int i = 0; i < cands.size(); ++i) {
-    const std::string hyp_word = syms.Find(cands[i].first);
+    // The first symbol stands for the empty string.
+    const std::string hyp_word =
+        cands[i].first == 0 ? "" : syms.Find(cands[i].first);
     probs.push_back(exp(-cands[i].second + norm));
     const std::string delim = i > 0 ? ", " : "";
     impl::LineToFile(
-- 
2.43.0


From d4c9df38ede1cb057e9cb471ff04e180882b15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 40/66] fix: notice failures to write the error rates

Small outputs were still buffered at the last check, so that the tool ended
with success on a full disk without having written anything.
---
 nisaba/translit/tools/calculate_error_rate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index edf06fd..3f14c6d 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -368,6 +368,8 @@ void MultiRefErrorRate::Write(absl::string_view ofile, bool pairwise_edits) {
   } else {
     WriteErrorRate(output_file);
   }
+  output_file.close();
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
-- 
2.43.0


From c1f8c565262ad1da217efa02a7b53bb8ab2af325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 41/66] fix: report failures to write text files

The contents were still buffered when the stream was checked, so that a write
that failed, e.g. on a full disk, was reported as a success.
---
 nisaba/port/file_util.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index cff7eb0..40a0bdc 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -98,6 +98,7 @@ absl::StatusOr<std::string> WriteTempTextFile(absl::string_view filename,
     return absl::PermissionDeniedError(absl::StrCat("Failed to open: ", path));
   }
   out << contents;
+  out.close();
   if (!out.good()) {
     return absl::InternalError(absl::StrCat("Failed to write to", path));
   }
@@ -113,6 +114,7 @@ absl::Status WriteTextFile(absl::string_view file_path,
         absl::StrCat("Failed to open: ", file_path));
   }
   output << contents;
+  output.close();
   if (!output) {
     return absl::PermissionDeniedError(absl::StrCat(
         "Failed to write: ", contents.size(), " bytes to ", file_path));
-- 
2.43.0


From 3bc99cf547b6edc9b1c5a05580cfec65dc185d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 42/66] fix: ReadLines removes the carriage return of a line

As its documentation says.
---
 nisaba/port/file_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index 40a0bdc..db6e688 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -170,6 +170,7 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
   }
   std::string line;
   while (std::getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();
     if (line.empty()) continue;
     if (line.size() >= max_length) line[max_length - 1] = '\0';
     input_lines.emplace_back(line);
-- 
2.43.0


From a9b1e70e2e29b1b3082a251e70be1f907d45a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:07 +0000
Subject: [PATCH 43/66] fix: ReadLines truncates long lines

It put a NUL character at the place where a line was to end and kept the rest
of the line.
---
 nisaba/port/file_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index db6e688..62186c3 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -172,7 +172,9 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
   while (std::getline(ifs, line)) {
     if (!line.empty() && line.back() == '\r') line.pop_back();
     if (line.empty()) continue;
-    if (line.size() >= max_length) line[max_length - 1] = '\0';
+    if (line.size() >= max_length) {
+      line.resize(max_length > 0 ? max_length - 1 : 0);
+    }
     input_lines.emplace_back(line);
   }
   return input_lines;
-- 
2.43.0


From 1f2d86017325b45fd68f67fe30bd5c3f9cbb6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:23 +0000
Subject: [PATCH 44/66] fix: file names of File that are string views

A view of a part of a longer string opened or deleted the file that the whole
string names, and a file kept a view of its name that could dangle.
---
 nisaba/port/file.cc |  4 ++--
 nisaba/port/file.h  | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index d1019e4..42e951b 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -42,7 +42,7 @@ bool File::Exists(const char* const name) { return access(name, F_OK) == 0; }
 
 size_t File::Size() {
   struct stat f_stat;
-  stat(name_.data(), &f_stat);
+  stat(name_.c_str(), &f_stat);
   return f_stat.st_size;
 }
 
@@ -149,7 +149,7 @@ File* OpenOrDie(const absl::string_view& filename,
                 const absl::string_view& mode, int flags) {
   File* f;
   CHECK_EQ(flags, Defaults());
-  f = File::Open(filename, mode.data());
+  f = File::Open(filename, std::string(mode).c_str());
   if (f == nullptr) {
     LOG(FATAL) << absl::StrCat("Could not open '", filename, "'");
   }
diff --git a/nisaba/port/file.h b/nisaba/port/file.h
index 9e43740..83ee438 100644
--- a/nisaba/port/file.h
+++ b/nisaba/port/file.h
@@ -16,6 +16,8 @@
 #ifndef NISABA_PORT_FILE_H_
 #define NISABA_PORT_FILE_H_
 
+#include <string>
+
 #include "google/protobuf/message.h"
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
@@ -29,7 +31,7 @@ class File {
 #ifndef SWIG  // no overloading
   inline static File* Open(const absl::string_view& name,
                            const char* const mode) {
-    return Open(name.data(), mode);
+    return Open(std::string(name).c_str(), mode);
   }
 #endif  // SWIG
 
@@ -40,7 +42,7 @@ class File {
 #ifndef SWIG  // no overloading
   inline static File* OpenOrDie(const absl::string_view& name,
                                 const char* const flag) {
-    return OpenOrDie(name.data(), flag);
+    return OpenOrDie(std::string(name).c_str(), flag);
   }
 #endif  // SWIG
 
@@ -91,7 +93,7 @@ class File {
   // Deletes a file.
   static bool Delete(const char* const name);
   static bool Delete(const absl::string_view& name) {
-    return Delete(name.data());
+    return Delete(std::string(name).c_str());
   }
 
   // Tests if a file exists.
@@ -103,7 +105,7 @@ class File {
   File(FILE* const f_des, const absl::string_view& name);
 
   FILE* f_;
-  const absl::string_view name_;
+  const std::string name_;
 };
 
 namespace file {
-- 
2.43.0


From 491f83eb50d865c47499f7862d6e0d70f08bfd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:24 +0000
Subject: [PATCH 45/66] fix: File::ReadToString without a limit

A maximum length above the largest int64 became negative.
---
 nisaba/port/file.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index 42e951b..bda1fad 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -17,7 +17,9 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <memory>
 
 #include "absl/log/check.h"
@@ -108,7 +110,9 @@ int64_t File::ReadToString(std::string* const output, uint64_t max_length) {
 
   if (max_length == 0) return 0;
 
-  int64_t needed = max_length;
+  int64_t needed = std::min(
+      max_length,
+      static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
   int bufsize = (needed < (2 << 20) ? needed : (2 << 20));
 
   std::unique_ptr<char[]> buf(new char[bufsize]);
-- 
2.43.0


From 685e76ea3bef8120460d163394d45ec82880b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 46/66] fix: rewrite::TopRewrites into a repeated field does
 not pass its output

---
 nisaba/interim/grm2/rewrite/rewrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/rewrite.h b/nisaba/interim/grm2/rewrite/rewrite.h
index de9fb85..af79f62 100644
--- a/nisaba/interim/grm2/rewrite/rewrite.h
+++ b/nisaba/interim/grm2/rewrite/rewrite.h
@@ -446,7 +446,7 @@ bool TopRewrites(const ::fst::Fst<Arc> &input, const ::fst::Fst<Arc> &rule,
   ::fst::VectorFst<Arc> lattice;
   if (!RewriteLattice(input, rule, &lattice)) return false;
   LatticeToShortest(&lattice, nshortest);
-  return LatticeToStrings(lattice, ttype, syms);
+  return LatticeToStrings(lattice, output, ttype, syms);
 }
 #endif  // NO_GOOGLE
 
-- 
2.43.0


From 89a6fb9d7e45977ab3965171bf97b60b824261b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 47/66] fix: BaseRuleCascade::TopRewrites into a repeated field
 passes the lattice by value

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index 8ba9cc8..b9663df 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -347,7 +347,7 @@ bool BaseRuleCascade<Arc>::TopRewrites(
     google::protobuf::RepeatedPtrField<std::string> *output) const {
   output->Clear();
   MutableTransducer lattice;
-  if (!TopRewrites(input, nshortest, lattice)) return false;
+  if (!TopRewrites(input, nshortest, &lattice)) return false;
   return LatticeToStrings(lattice, output, token_type_);
 }
 #endif  // NO_GOOGLE
-- 
2.43.0


From a67a9eae4a8f74c1a6ce12131e012c12e3a89190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:07 +0000
Subject: [PATCH 48/66] fix: PathIterator::Reset keeps the position it had

---
 nisaba/interim/grm2/paths/paths.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nisaba/interim/grm2/paths/paths.h b/nisaba/interim/grm2/paths/paths.h
index 29c5845..ad37eda 100644
--- a/nisaba/interim/grm2/paths/paths.h
+++ b/nisaba/interim/grm2/paths/paths.h
@@ -129,6 +129,11 @@ PathIterator<Arc>::PathIterator(const Fst<Arc> &fst, bool check_acyclic)
 template <class Arc>
 void PathIterator<Arc>::Reset() {
   pop_labels_ = false;
+  path_states_.clear();
+  path_ilabels_.clear();
+  path_olabels_.clear();
+  path_weights_.clear();
+  arc_iterator_offsets_.clear();
   const auto start = fst_->Start();
   if (start == kNoStateId) return;
   // Seeds the search with the start state.
-- 
2.43.0


From 8eaea63722c79b1add2082662d681e4466bfe691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:07 +0000
Subject: [PATCH 49/66] fix: PathIterator gives paths which end in a dead end

---
 nisaba/interim/grm2/paths/paths.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nisaba/interim/grm2/paths/paths.h b/nisaba/interim/grm2/paths/paths.h
index ad37eda..69e91cd 100644
--- a/nisaba/interim/grm2/paths/paths.h
+++ b/nisaba/interim/grm2/paths/paths.h
@@ -93,6 +93,10 @@ class PathIterator {
 
   void MaybePopLabels();
 
+  // Moves on to the next final state; returns false if it runs into a state
+  // from which there is none, having taken it off the path.
+  bool Advance();
+
   // If initialization failed.
   bool error_;
   // Copy of FST being iterated over.
@@ -157,6 +161,12 @@ void PathIterator<Arc>::Next() {
     arc_iterator_offsets_.push_back(kNewState);
     return;
   }
+  while (!Done() && !Advance()) {
+  }
+}
+
+template <class Arc>
+bool PathIterator<Arc>::Advance() {
   // At the current state (the back of path_states_) we increment the
   // arc_iterator offset (meaning that if it's -1, aka kNewState, then we set it
   // to 0 and therefore start reading).
@@ -185,7 +195,7 @@ void PathIterator<Arc>::Next() {
       break;
     }
   }
-  if (Done()) return;
+  if (Done()) return true;
   // Now we proceed forward until we hit a final state.
   while (nextstate != kNoStateId) {
     path_states_.push_back(nextstate);
@@ -196,7 +206,8 @@ void PathIterator<Arc>::Next() {
         // We reached a non-final state with no exiting arcs. Pop it. This
         // shouldn't happen unless someone passes an unconnected machine.
         path_states_.pop_back();
-        return;
+        pop_labels_ = true;
+        return false;
       } else {
         const auto &arc = aiter.Value();
         VisitArc(arc);
@@ -215,9 +226,10 @@ void PathIterator<Arc>::Next() {
       pop_labels_ = false;
       path_weights_.push_back(weight);
       arc_iterator_offsets_.push_back(-1);
-      return;
+      return true;
     }
   }
+  return true;
 }
 
 template <class Arc>
-- 
2.43.0


From 90f540c5e0c3d2ff443a681d512d29c5d2175dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 50/66] fix: rewrites into labels end the process if there are
 endlessly many

---
 nisaba/interim/grm2/rewrite/rewrite.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/rewrite.h b/nisaba/interim/grm2/rewrite/rewrite.h
index af79f62..ec192b6 100644
--- a/nisaba/interim/grm2/rewrite/rewrite.h
+++ b/nisaba/interim/grm2/rewrite/rewrite.h
@@ -215,7 +215,13 @@ template <class Arc>
 bool LatticeToLabels(const ::fst::Fst<Arc> &lattice,
                      std::vector<std::vector<typename Arc::Label>> *output) {
   output->clear();
-  ::fst::PathIterator<Arc> paths(lattice);
+  // We have to do this check manually since PathIterator's check is potentially
+  // fatal.
+  if (lattice.Properties(::fst::kAcyclic, true) != ::fst::kAcyclic) {
+    LOG(ERROR) << "Lattice is unexpectedly cyclic";
+    return false;
+  }
+  ::fst::PathIterator<Arc> paths(lattice, /*check_acyclic=*/false);
   if (paths.Error()) return false;
   for (; !paths.Done(); paths.Next()) output->emplace_back(paths.OLabels());
   return true;
-- 
2.43.0


From fe126796141295146c262d6534ef3af0427626b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 51/66] fix: OneTopRewrite overlooks a tie with a longer output

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index b9663df..c0fa192 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -250,7 +250,12 @@ bool BaseRuleCascade<Arc>::OneTopRewrite(absl::string_view input,
   // Make sure there is only one path.
   for (::fst::StateIterator<MutableTransducer> siter(*output); !siter.Done();
        siter.Next()) {
-    if (output->NumArcs(siter.Value()) > 1) return false;
+    const auto state = siter.Value();
+    const auto num_arcs = output->NumArcs(state);
+    if (num_arcs > 1) return false;
+    if (num_arcs == 1 && output->Final(state) != Arc::Weight::Zero()) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From 3617ab32ffdd9c37429f39bb4b94f9a04c5c7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 52/66] fix: debug strings of rewrites have zero bytes for
 epsilons

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index c0fa192..ce2ed90 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -522,6 +522,7 @@ bool BaseRuleCascade<Arc>::LabelsToDebugString(absl::string_view output,
 template <class Arc>
 void BaseRuleCascade<Arc>::PrintDebugSymbol(Label label,
                                             std::ostream &ostrm) const {
+  if (label == 0) return;  // Epsilons are not in the output string either.
   if (const auto *gensyms = GeneratedSymbols()) {
     // First check the symbol table, then back off to bytes.
     const auto &symbol = gensyms->Find(label);
-- 
2.43.0


From 30d2b4144cbe0e2b0d8367dd6c3c2c90788198bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 53/66] fix: RuleCascade::InitFromDefs keeps the rules it had

---
 nisaba/interim/grm2/thrax/abstract-grm-manager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/interim/grm2/thrax/abstract-grm-manager.h b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
index b54dd15..15a6501 100644
--- a/nisaba/interim/grm2/thrax/abstract-grm-manager.h
+++ b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
@@ -412,6 +412,7 @@ template <typename Arc>
 bool RuleCascade<Arc>::InitFromDefs(const AbstractGrmManager<Arc>* grm,
                                     const std::vector<std::string>& rules) {
   grm_ = grm;
+  rule_triples_.clear();
   for (auto& rule : rules) rule_triples_.emplace_back(rule);
   return ValidateRules();
 }
-- 
2.43.0


From 32190b3add9905e795d71f04ce2c7eb83e752ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 54/66] fix: Grammars which share a GrmManager free it twice

---
 nisaba/scripts/brahmic/grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/brahmic/grammar.h b/nisaba/scripts/brahmic/grammar.h
index 4d90e42..6370712 100644
--- a/nisaba/scripts/brahmic/grammar.h
+++ b/nisaba/scripts/brahmic/grammar.h
@@ -61,7 +61,7 @@ class Grammar {
           thrax::GrmManager *grm_manager)
       : far_file_path_(MakeFarFilePath(kFarPath, far_name)),
         fst_name_(absl::AsciiStrToUpper(fst_name)),
-        grm_mgr_(grm_manager) {}
+        grm_mgr_(grm_manager, [](thrax::GrmManager *) {}) {}
 
   // Loads the FAR file and verifies that the FST is found.
   absl::Status Load();
-- 
2.43.0


From 5bf2f80dd8791ccb6c16e744248539ea05a293f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:16:08 +0000
Subject: [PATCH 55/66] fix: Costs of n-best strings above 745 become infinite

Their probabilities were added after exponentiation, which underflows: costs
in the k-best lists became -inf, and in ensembles no candidate survived.
---
 nisaba/translit/tools/kbest-full-string-util.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 9c9d4c8..bc75e2f 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -64,6 +64,13 @@ using ::fst::VectorFst;
 namespace impl {
 namespace {
 
+// Returns the negative log of the sum of two probabilities, given as negative
+// logs, without underflow if these are large.
+double NegLogSum(double a, double b) {
+  const double diff = a == b ? 0.0 : std::abs(a - b);  // Both can be infinite.
+  return std::min(a, b) - log1p(exp(-diff));
+}
+
 // Returns the most frequently found value in the vector.
 int MostFreqValue(std::vector<int> input_vec, int *min_value = nullptr) {
   std::sort(input_vec.begin(), input_vec.end());
@@ -189,7 +196,7 @@ std::vector<std::vector<std::pair<std::string, double>>> NormAndPairList(
     double tot = system_scores[i][0];
     input_to_ensemble[i].reserve(system_scores[i].size());
     for (int j = 1; j < system_scores[i].size(); ++j) {
-        tot = -log(exp(-tot) + exp(-system_scores[i][j]));
+        tot = NegLogSum(tot, system_scores[i][j]);
     }
     for (int j = 0; j < system_scores[i].size(); ++j) {
       input_to_ensemble[i].push_back(
@@ -260,7 +267,7 @@ std::vector<std::pair<std::string, double>> GetOutputs(
     }
     kbest_scores[i] += kbest_strings.Final(curr_st).Value();
     tot_cost =
-        i == 0 ? kbest_scores[i] : -log(exp(-tot_cost) + exp(-kbest_scores[i]));
+        i == 0 ? kbest_scores[i] : NegLogSum(tot_cost, kbest_scores[i]);
   }
   std::vector<std::pair<std::string, double>> result(start_states.size());
   for (int i = 0; i < start_states.size(); ++i) {
-- 
2.43.0


From f16e83b66b3d116dbd3401507b9494f7c938686c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:16:08 +0000
Subject: [PATCH 56/66] fix: Rejoiner's default kbest ignores the last output

Unspecified, it is the size of the largest list of the input, but the lists of
the last output were not counted; with a single output it was zero, for which
no string was found.
---
 nisaba/translit/tools/kbest-full-string-util.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index bc75e2f..04bae90 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -660,11 +660,6 @@ void KbestRejoiner::InitializeKbestRejoiner(
       if (!last_input.empty() && seq[0] != last_input) {
         QCHECK_LT(output_idx, output_indices_.size() - 1);
         if (output_indices_[output_idx] != output_indices_[output_idx + 1]) {
-          for (const auto &curr_set : curr_list) {
-            if (curr_set.size() > max_kbest) {
-              max_kbest = curr_set.size();
-            }
-          }
           kbest_lists_.push_back(curr_list);
           curr_list.clear();
         }
@@ -673,6 +668,7 @@ void KbestRejoiner::InitializeKbestRejoiner(
       }
       last_input = seq[0];
       curr_list.back().push_back(std::make_pair(seq[1], std::stod(seq[2])));
+      max_kbest = std::max<int>(max_kbest, curr_list.back().size());
     }
     kbest_lists_.push_back(curr_list);
     QCHECK_EQ(kbest_lists_.size(), output_indices_.back() + 1);
-- 
2.43.0


From fab87359e7abf54c96de1822f7b7032a681c9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 57/66] fix: Pair LM decoder ignores its configured mixing
 weight

---
 nisaba/translit/fst/pairlm_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index bb6af6c..e3db9c7 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -411,6 +411,7 @@ void PairLMDecoder::InitializePairLMDecoder(
                              : kDefaultMaxParallelTokens;
   oov_cost_ =
       pairlm_config.has_oov_cost() ? pairlm_config.oov_cost() : kOOVCost;
+  pairlm_translit_weight_ = kDefaultMixWeight;
   InitializeExternalTransliterations(pairlm_config);
   max_word_cands_ = pairlm_config.has_max_word_cands()
                         ? pairlm_config.max_word_cands()
@@ -421,7 +422,6 @@ void PairLMDecoder::InitializePairLMDecoder(
   min_cand_posterior_ = pairlm_config.has_min_cand_posterior()
                             ? pairlm_config.min_cand_posterior()
                             : kMinCandPosterior;
-  pairlm_translit_weight_ = kDefaultMixWeight;
   sample_from_k_best_ = pairlm_config.sample_from_k_best();
   if (pairlm_config.has_random_seed()) {
     random_seed_ = pairlm_config.random_seed();
-- 
2.43.0


From c0470329235f5b6bd7823eae44de74b18dbfa191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 58/66] fix: --input_lm_fst_file replaces the pair LM of the
 decoder

---
 nisaba/translit/fst/pairlm_decoder_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder_main.cc b/nisaba/translit/fst/pairlm_decoder_main.cc
index 1779fcd..cc5cc74 100644
--- a/nisaba/translit/fst/pairlm_decoder_main.cc
+++ b/nisaba/translit/fst/pairlm_decoder_main.cc
@@ -84,7 +84,7 @@ bool Run() {
     config.set_pairlm_file(absl::GetFlag(FLAGS_input_pairlm_fst_file));
   }
   if (!absl::GetFlag(FLAGS_input_lm_fst_file).empty()) {
-    config.set_pairlm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
+    config.set_lm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
   }
 
   // Run the decoder.
-- 
2.43.0


From 32850e89df20a1ae8ede54b687c0f29fcd41ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 59/66] fix: Pair LM decoder dies when a segment of a word is a
 later word

---
 nisaba/translit/fst/pairlm_decoder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index e3db9c7..f8ae8a8 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -906,10 +906,11 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
                                               int k_best,
                                               TranslitContext &fst_params) {
   fst_params.mutex.lock();
+  // Adds the word unless it has been seen before. Segments of other words, which
+  // may be cached already, are not added there.
+  fst_params.input_syms.AddSymbol(input_word);
   // We haven't seen this word, so initialize it in indexes.
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
-    // Adds input_word since it has not been seen before.
-    fst_params.input_syms.AddSymbol(input_word);
     // Add premixed.
     mutex_.lock_shared();
     const bool override = mix_overrides_.contains(input_word);
-- 
2.43.0


From b1e79b37c0df48f3046f30c260b5b3ffc804a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 60/66] fix: Pair LM decoder dies on blank lines with a
 language model

---
 nisaba/translit/fst/pairlm_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index f8ae8a8..138283c 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1191,7 +1191,7 @@ StdVectorFst PairLMDecoder::TransliterateString(absl::string_view input_line,
   TranslitContext fst_params(epsilon_symbol_);
   StdVectorFst transliteration_fst =
       BuildTransliterationFst(input_line, k_best, fst_params, &unique_arc_id);
-  if (lm_fst_ != nullptr) {
+  if (lm_fst_ != nullptr && transliteration_fst.NumStates() > 1) {
     StdVectorFst lm_labels_lattice_fst;
     auto cands_ptr = *(fst_params.cands_to_lm_fst);
     if (apply_lm_at_word_level_) {
-- 
2.43.0


From 4d3cbca96f1d1a6a478e631640b244543ea6aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 61/66] fix: Pair LM decoder reads candidate symbols while
 others add to them

---
 nisaba/translit/fst/pairlm_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 138283c..f7aeb6b 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -804,8 +804,10 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
       // concatenates along the path. Only non-epsilon labels added to
       // new_symbol.
       const StdArc arc = aiter.Value();
+      fst_params.mutex.lock_shared();
       std::string new_symbol =
           arc.ilabel > 0 ? fst_params.cand_syms.Find(arc.ilabel) : "";
+      fst_params.mutex.unlock_shared();
       double cost = arc.weight.Value();
       int next_state = arc.nextstate;
       while (best_concat_strings.NumArcs(next_state) > 0) {
@@ -814,6 +816,7 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
         const StdArc next_arc = next_aiter.Value();
         if (next_arc.ilabel > 0) {
           // Skips any epsilon arcs, should they occur.
+          absl::ReaderMutexLock lock(fst_params.mutex);
           absl::StrAppend(&new_symbol,
                           fst_params.cand_syms.Find(next_arc.ilabel));
         }
-- 
2.43.0


From 3756a42bf5e82264258ce7196c7da2ea21f4b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:21 +0000
Subject: [PATCH 62/66] fix: Repeated words of a sentence mix their external
 candidates twice

---
 nisaba/translit/fst/pairlm_decoder.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index f7aeb6b..0e5db46 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -959,16 +959,12 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
 
   // If the word is marked as mixed, no need to mix or cache again, so return
   // right away.
-  fst_params.mutex.lock_shared();
-  const bool override = fst_params.mixed_with_precomputed.at(input_word);
-  fst_params.mutex.unlock_shared();
-  if (override) {
+  absl::MutexLock fst_params_lock(fst_params.mutex);
+  if (fst_params.mixed_with_precomputed.at(input_word)) {
     // Returns cached word transliterations.
-    absl::ReaderMutexLock lock(fst_params.mutex);
     return fst_params.word_transliteration_cache.at(input_word);
   }
 
-  fst_params.mutex.lock();
   // Adds Fst weighting to final state of Fst automaton prior to union.
   QCHECK_EQ(word_transliterations.NumStates(), 2);
   QCHECK_EQ(word_transliterations.Start(), 0);
@@ -1003,7 +999,6 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
     }
     mix_overrides_.emplace(input_word);
   }
-  fst_params.mutex.unlock();
 
   return word_transliterations;
 }
-- 
2.43.0


From 45c6af48073d2b5d032a90d688c513685c62b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:21 +0000
Subject: [PATCH 63/66] fix: Concurrent sentences mix their external candidates
 twice

---
 nisaba/translit/fst/pairlm_decoder.cc | 19 +++++++++----------
 nisaba/translit/fst/pairlm_decoder.h  |  5 +++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 0e5db46..d43690a 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -833,11 +833,12 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
   return translit_result;
 }
 
-void PairLMDecoder::ExtractCachedWordTransliterations(
+bool PairLMDecoder::ExtractCachedWordTransliterations(
     absl::string_view input_word, TranslitContext &fst_params,
     StdVectorFst &cached) {
   mutex_.lock_shared();
   const auto cached_pairs = global_word_transliteration_cache_.at(input_word);
+  const bool override = mix_overrides_.contains(input_word);
   mutex_.unlock_shared();
   for (const auto &pair : cached_pairs) {
     AddCandSymArc(pair.first, pair.second,
@@ -845,6 +846,7 @@ void PairLMDecoder::ExtractCachedWordTransliterations(
   }
   impl::PushInLogSemiring(&(cached),
                           /*determinize=*/true);
+  return override;
 }
 
 StdVectorFst PairLMDecoder::TransliterateUnsegmentedWord(
@@ -914,20 +916,17 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   fst_params.input_syms.AddSymbol(input_word);
   // We haven't seen this word, so initialize it in indexes.
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
-    // Add premixed.
-    mutex_.lock_shared();
-    const bool override = mix_overrides_.contains(input_word);
-    mutex_.unlock_shared();
-    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
     //  Add global cache.
     StdVectorFst cached;
     cached.SetStart(cached.AddState());
     cached.SetFinal(cached.AddState(), StdArc::Weight::One());
-    const bool vocab_check = CheckCache(input_word);
-    if (vocab_check) {
-      ExtractCachedWordTransliterations(input_word, fst_params, cached);
-    }
+    // Both must be of the same time, as mixing changes both.
+    const bool override =
+        CheckCache(input_word) &&
+        ExtractCachedWordTransliterations(input_word, fst_params, cached);
     fst_params.word_transliteration_cache.insert_or_assign(input_word, cached);
+    // Add premixed.
+    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
   }
   fst_params.mutex.unlock();
   fst_params.mutex.lock_shared();
diff --git a/nisaba/translit/fst/pairlm_decoder.h b/nisaba/translit/fst/pairlm_decoder.h
index 6d9a07b..cc226de 100644
--- a/nisaba/translit/fst/pairlm_decoder.h
+++ b/nisaba/translit/fst/pairlm_decoder.h
@@ -159,8 +159,9 @@ class PairLMDecoder {
   void BuildCandToLMFst(absl::string_view new_symbol,
                         ::fst::StdVectorFst *cand_to_lm);
 
-  // Build FST containing transliterations from global cache
-  void ExtractCachedWordTransliterations(absl::string_view input_word,
+  // Build FST containing transliterations from global cache, and returns whether
+  // these require no mixing.
+  bool ExtractCachedWordTransliterations(absl::string_view input_word,
                                          TranslitContext &fst_params,
                                          ::fst::StdVectorFst &cached);
 
-- 
2.43.0


From 6040ef6decd8dc64629739192e2f4e9e2ebb1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:24 +0000
Subject: [PATCH 64/66] fix: The pair LM decoder never starts its workers

---
 nisaba/translit/fst/pairlm_decoder.cc        | 1 +
 nisaba/translit/fst/pairlm_decoder_runner.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index d43690a..a56fbae 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1020,6 +1020,7 @@ StdVectorFst PairLMDecoder::BuildTransliterationFst(
   std::vector<StdVectorFst> translit_fsts(input_words.size());
   {
      ThreadPool pool(max_parallel_tokens_);
+     pool.StartWorkers();
      for (int i = 0; i < input_words.size(); ++i) {
        pool.Schedule([this, i, word_k_best, &translit_fsts, &input_words,
          &fst_params] {
diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index 6b04791..a55f521 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -80,6 +80,7 @@ absl::Status ParallelDecoding(const PairLMDecoderOptions &config,
       std::make_unique<PairLMDecoder>(config);
   std::unique_ptr<ThreadPool> thread_pool =
       std::make_unique<ThreadPool>(num_workers);
+  thread_pool->StartWorkers();
 
   int index = 0;
   for (const auto &input_line : input_lines) {
-- 
2.43.0


From 74a81256be5b2fb787127059bf1b28f06293c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 65/66] fix: IsOkAndHolds() and ASSERT_OK_AND_ASSIGN() do not
 compile

absl::StatusOr has neither element_type nor ValueOrDie().
---
 nisaba/port/status-matchers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nisaba/port/status-matchers.h b/nisaba/port/status-matchers.h
index 42469f2..1c4eb87 100644
--- a/nisaba/port/status-matchers.h
+++ b/nisaba/port/status-matchers.h
@@ -50,7 +50,7 @@ inline const absl::Status& GetStatus(const absl::StatusOr<T>& status) {
 template <typename StatusOrType>
 class IsOkAndHoldsMatcherImpl : public MatcherInterface<StatusOrType> {
  public:
-  typedef typename std::remove_reference<StatusOrType>::type::element_type
+  typedef typename std::remove_reference<StatusOrType>::type::value_type
       value_type;
 
   template <typename InnerMatcher>
@@ -77,11 +77,11 @@ class IsOkAndHoldsMatcherImpl : public MatcherInterface<StatusOrType> {
 
     StringMatchResultListener inner_listener;
     const bool matches = inner_matcher_.MatchAndExplain(
-        actual_value.ValueOrDie(), &inner_listener);
+        actual_value.value(), &inner_listener);
     const std::string inner_explanation = inner_listener.str();
     if (inner_explanation != "") {
       *result_listener << "which contains value "
-                       << PrintToString(actual_value.ValueOrDie()) << ", "
+                       << PrintToString(actual_value.value()) << ", "
                        << inner_explanation;
     }
     return matches;
@@ -228,7 +228,7 @@ class IsOkMatcher {
 #define ASSERT_OK_AND_ASSIGN_IMPL(statusor, lhs, rexpr) \
   auto statusor = (rexpr);                              \
   ASSERT_OK(statusor);                                  \
-  lhs = std::move(statusor).ValueOrDie();
+  lhs = std::move(statusor).value();
 
 #define ASSERT_OK_AND_ASSIGN(lhs, rexpr) \
   ASSERT_OK_AND_ASSIGN_IMPL(             \
-- 
2.43.0


From c36528ea65a202614335cfa22bf3fcc55024815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 66/66] fix: ASSIGN_OR_RETURN() copies, and does not take
 move-only values

The status was const, so that moving its value copied it.
---
 nisaba/port/status_macros.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/port/status_macros.h b/nisaba/port/status_macros.h
index 721d91f..57ba127 100644
--- a/nisaba/port/status_macros.h
+++ b/nisaba/port/status_macros.h
@@ -34,11 +34,11 @@ namespace mozolm {
 
 #define ASSIGN_OR_RETURN_IMPL(statusor, lhs, rexpr) \
   do {                                              \
-    const auto statusor = (rexpr);                  \
+    auto statusor = (rexpr);                        \
     if (ABSL_PREDICT_FALSE(!statusor.ok())) {       \
       return statusor.status();                     \
     }                                               \
-    lhs = std::move(statusor.value());              \
+    lhs = std::move(statusor).value();              \
   } while (false)
 
 #define RETURN_IF_ERROR_IMPL(__local_status, __status) \
-- 
2.43.0

