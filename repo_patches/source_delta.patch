From 3d69d695aadf7f601c23ac020950a16220dd482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 01/24] fix: escape the Om symbol before using it as a pattern

The romanized Om of Velthuis is 'o.m'; its dot was read as a wildcard, so
any word 'okm', 'orm', ... became the Om sign when converting to an Indic script.
---
 aksharamukha/Convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..b2a7cf9 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -79,6 +79,7 @@ def convertScript(Strng,Source,Target):
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
+        sOm = re.escape(sOm) # Velthuis: o.m
 
         Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-- 
2.43.0


From 1472f7b388b02812d32b104a04e0a84f8ced83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 02/24] =?UTF-8?q?fix:=20SLP1=20Q=20(=E0=A4=A2)=20after=20a?=
 =?UTF-8?q?n=20inherent=20a=20is=20a=20consonant,=20not=20a=20nukta?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

FixRomanOutput moved every nukta symbol in front of the inherent vowel; SLP1
writes ढ with the same letter, so गढ became gQaa.
---
 aksharamukha/ConvertFix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..bf98f5d 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -205,7 +205,8 @@ def FixRomanOutput(Strng,Target):
     # Output: kʌ× k_×a kʌ kʌā kʌr̥ k_hʌ bʌ̄× bʌ̄ bʌ̄ō bhʌ× bhʌ bhʌā kʌi kʌṿ_i kʌṿī
 
     # Rearranging Nukta
-    Strng = re.sub('('+Schwa+')('+Nukta+')',r'\2\1',Strng)
+    # (a Nukta is never directly followed by Schwa: SLP1 uses the same letter Q for the consonant ढ)
+    Strng = re.sub('('+Schwa+')('+Nukta+')(?!'+Schwa+')',r'\2\1',Strng)
     # Output: kʌ× k_×a kʌ kʌā kʌr̥ k_hʌ b̄ʌ× b̄ʌ b̄ʌō bhʌ× bhʌ bhʌā kʌi kʌṿ_i kʌṿī
 
     # Removing Schwa if followed by VowelSigns
-- 
2.43.0


From 6c30d6526eb881e0424da28adb9bef54ca1c9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 03/24] fix: a multi-letter Om is the Om sign only when it
 stands alone
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Indic to Roman conversion replaced the spelling of Om everywhere, so Bengali
ওঁকার became oṃkāra, losing the candrabindu; the Indic to Indic branch already
requires word boundaries.
---
 aksharamukha/Convert.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index b2a7cf9..7450cde 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -236,7 +236,17 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = Strng.replace(sOm, tOm)
+        # an Om spelled with several letters is the Om sign only when it stands alone
+        if len(sOm) != 1:
+            punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
+                        + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
+
+            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
+            Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
+            Strng = re.sub('^' + sOm + '$', tOm, Strng)
+        else:
+            Strng = Strng.replace(sOm, tOm)
 
         # Iterate for each character group
         for charList in GM.ScriptAll:
-- 
2.43.0


From 472cda5478c2b41f10e3d428a519d862428790fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 04/24] fix: Takri e and o are the ordinary vowels, not the
 short ones, when romanized

---
 aksharamukha/ScriptMap/MainIndic/Takri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/MainIndic/Takri.py b/aksharamukha/ScriptMap/MainIndic/Takri.py
index cb91760..200acf0 100644
--- a/aksharamukha/ScriptMap/MainIndic/Takri.py
+++ b/aksharamukha/ScriptMap/MainIndic/Takri.py
@@ -20,8 +20,8 @@ VowelMap =  [
             ]
 
 SouthVowelMap = [
-                '\U00011686',
-                '\U00011688',
+                '\U00011686\u02BD',
+                '\U00011688\u02BD',
                 ]
 
 ModernVowelMap = [
-- 
2.43.0


From 99102b4f9435b707b06d2a557364594099cba4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 05/24] fix: Thai puts the vowel before a word-initial conjunct
 at the start of the text too

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index bf98f5d..3e4f4a5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2179,7 +2179,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From 61f874b69ab5be6a95f77764e11166b4a3e09cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 06/24] fix: every Om of a row of Oms becomes the Om sign, not
 every second one

---
 aksharamukha/Convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 7450cde..009a2c9 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -81,14 +81,14 @@ def convertScript(Strng,Source,Target):
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
         sOm = re.escape(sOm) # Velthuis: o.m
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
 
         punc = '(\s)'
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
@@ -186,7 +186,7 @@ def convertScript(Strng,Source,Target):
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
         if len(sOm) != 1:
-            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
             Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + '$', tOm, Strng)
@@ -241,7 +241,7 @@ def convertScript(Strng,Source,Target):
             punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
                         + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
-            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
             Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + '$', tOm, Strng)
-- 
2.43.0


From 0470a694f6ce9bb6e96522b03960cafc04c8611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 07/24] fix: the Batak scripts have no LoC romanization; fall
 back to ISO instead of failing

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 2b0b66c2bfc57cdbca46058e5ae592385862032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 08/24] fix: removeZW always failed: replace() needs a
 replacement

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..8b5b8f6 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1667,7 +1667,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C", "").replace("\u200D", "")
 
     return Strng
 
-- 
2.43.0


From c14622ae77130b97479f669b9819a7b04da3fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 09/24] fix: OriyaSubojinedVa always failed: invalid pattern

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 8b5b8f6..979ab57 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
-- 
2.43.0


From f6754e2e80554e28ca11461475de9c00007bf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 10/24] fix: IPAIndic returned nothing

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 979ab57..0e529fc 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1791,4 +1791,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From 1ad397f30ecdd01325ab3cf7a4cddfc371e5f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 11/24] fix: Ignore and same-script conversion of the Semitic
 ISO romanizations changed the text

---
 aksharamukha/transliterate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..aa2745a 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -225,6 +225,12 @@ def detect_preoptions(text, inputScript):
 def convert(src, tgt, txt, nativize, preoptions, postoptions):
     tgtOld = ""
 
+    ## nothing to convert (before the intermediate scripts below are used)
+    if tgt == "" or tgt == "Ignore":
+        return txt
+    if preoptions == [] and postoptions == [] and nativize == False and src == tgt:
+        return txt
+
     ## ALA-LC Romanizations
     ## process as follows, if source is associated with LoC script
     if tgt == 'RomanLoC' and src in GeneralMap.LoCScripts:
@@ -330,8 +336,6 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
         txt = json.dumps(textNew).replace("\\n", "\n")'''
 
-    if tgt == "" or tgt == "Ignore":
-        return txt
     if preoptions == [] and postoptions == [] and nativize == False and src == tgt:
         return txt
 
-- 
2.43.0


From afe7ffc261bba7cf81aa616ad2570b2089bcc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 12/24] fix: ITRANS .n .m .h were not read when the text also
 had a |

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 0e529fc..28a2b90 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1279,7 +1279,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             Strng = Strng.replace("।", "|").replace("॥", "||")
             Strng = Strng.replace("|", ".").replace("||", "..")
         if Source == "Itrans":
-            Strng = re.sub("●([acCDN])", "."+r'\1', Strng)
+            Strng = re.sub("●([acCDNnmh])", "."+r'\1', Strng)
         elif Source == "Velthuis":
             Strng = re.sub("●([rRlLmhtdnTDsyg])", "."+r'\1', Strng)
             Strng = re.sub("●●([lr])", "."+r'\1', Strng)
-- 
2.43.0


From 1982d70dbe450433c2427603612040252b4bc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 13/24] =?UTF-8?q?fix:=20decomposed=20=C3=B1,=20a=C3=AF=20a?=
 =?UTF-8?q?nd=20a=C3=BC=20of=20IAST=20and=20ISO=20input=20were=20read=20as?=
 =?UTF-8?q?=20anusvara=20or=20left=20over?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PreProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 28a2b90..a95d5c2 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1342,6 +1342,11 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
             print(Strng)
 
+    # letters typed with combining marks are the same letters
+    if 'IAST' in Source or "ISO" in Source:
+        Strng = Strng.replace('n\u0303', 'ñ')
+        Strng = Strng.replace('ai\u0308', 'aï').replace('au\u0308', 'aü')
+
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
         Strng = Strng.replace("aü", "a_u")
-- 
2.43.0


From 9809356c0bd9965617239c3db26ecf4478994ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 14/24] =?UTF-8?q?fix:=20the=20hiatus=20mark=20before=20?=
 =?UTF-8?q?=C4=AB=20or=20=C5=AB=20of=20romanizations=20with=20a=20length?=
 =?UTF-8?q?=20mark=20was=20left=20in=20the=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/Convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 009a2c9..046dbc1 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -131,8 +131,9 @@ def convertScript(Strng,Source,Target):
             #print(Strng)
 
         ## a_i => a<dev>i<dev> ; a_u = a<dev>u<dev>
-        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[2],  GM.CrunchSymbols(GM.Vowels,Target)[2])
-        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[4],  GM.CrunchSymbols(GM.Vowels,Target)[4])
+        ## a_ī => a<dev>ī<dev> in romanizations that write a long vowel as the short one with a length mark
+        for x in GM.CrunchSymbols(GM.Vowels,Target)[2:6]:
+            Strng = Strng.replace('_' + x, x)
 
         ## Joiners Vir + ZWJ
         vir = GM.CrunchList('ViramaMap', Target)[0]
-- 
2.43.0


From af33eeb6e457148480fa91f5d142e6c7b441b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 15/24] fix: fold the case of Semitic, Semitic-romanization and
 kana script names like that of the other script names

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index aa2745a..470a0c8 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -609,7 +609,7 @@ def convert_default(src, tgt, txt, nativize = True, post_options = [], pre_optio
     return convert(src, tgt, txt, nativize, pre_options, post_options)
 
 def process_default(src, tgt, txt, nativize, post_options, pre_options):
-    scriptList = GeneralMap.IndicScripts + GeneralMap.LatinScripts
+    scriptList = GeneralMap.IndicScripts + GeneralMap.LatinScripts + GeneralMap.SemiticScripts + list(GeneralMap.semiticISO) + ['Hiragana', 'Katakana']
     scriptListLower = list(map(lambda x: x.lower(), scriptList))
 
     if src == 'autodetect':
-- 
2.43.0


From d0847ef784f02df85a2f99740da56e2129979085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 16/24] fix: keep the numeral and full-stop options when
 RemoveDiacritics is given for Tamil

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 470a0c8..10c902f 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -520,7 +520,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     if 'RemoveDiacritics' in postoptions:
       if tgt == 'Tamil':
-        postoptions = map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions)
+        postoptions = list(map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions))
 
     for options in postoptions:
       transliteration = getattr(PostProcess, options)(transliteration)
-- 
2.43.0


From 54e39c5119fdb4a65fac108e67b60929ae9739a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 17/24] fix: autodetect with script codes, language codes and
 language names works as with script names

---
 aksharamukha/transliterate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 10c902f..5cd26cc 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -705,7 +705,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -830,7 +830,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -855,8 +855,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = src_name # resolved along with the language codes
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 201b51d24468ee846187d75b10f2a0b71f1cd4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 18/24] fix: autodetect of the empty text, and of Latin text in
 plugin mode, no longer raises IndexError

---
 aksharamukha/gimeltra.py      | 2 +-
 aksharamukha/transliterate.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..27a1977 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -30,7 +30,7 @@ class Transliterator(object):
 
     def auto_script(self, text):
         sc_count = Counter([ucd.script(c) for c in text])
-        sc = sc_count.most_common(1)[0][0]
+        sc = sc_count.most_common(1)[0][0] if sc_count else ''
         if not sc:
             sc = 'Zyyy'
         return sc
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 5cd26cc..3fbc9f4 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -70,14 +70,14 @@ def auto_detect(text, plugin = False):
     else:
         #print('here')
         if len(script_percent) > 0:
-            if sorted(script_percent)[-1][1] == 'latin':
+            if sorted(script_percent)[-1][1] == 'latin' and len(script_percent) > 1:
                 script = sorted(script_percent)[-2][1]
             else:
                 script = sorted(script_percent)[-1][1]
         else:
             script = ''
 
-    inputScript = script[0].upper() + script[1:]
+    inputScript = script[:1].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
 
-- 
2.43.0


From 0d55b1410ee88e86090be69b1c87e61c3249775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 19/24] fix: language codes after the first one of a script are
 found (the list in the data file has blanks after the commas)

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 3fbc9f4..f0f4696 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -648,7 +648,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -745,7 +745,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 95165a282ed61d476ed38efcd955574195fa18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:34 +0000
Subject: [PATCH 20/24] fix: autodetect judges the script by letters and marks
 only, and names Gondi and Rohingya scripts

---
 aksharamukha/transliterate.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index f0f4696..128a5c5 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -42,7 +42,11 @@ def unique_everseen(iterable, key=None):
 def auto_detect(text, plugin = False):
     scripts = []
 
-    for uchar in text:
+    ## spaces, digits, punctuation etc. are shared by scripts: only letters and marks tell the script
+    letters = [uchar for uchar in text if unicodedata.category(uchar)[0] in 'LM'
+               and unicodedata.name(uchar, '').split(' ')[0] not in ('COMBINING', 'MODIFIER', 'VEDIC')]
+
+    for uchar in letters or text:
         try:
             script_name = unicodedata.name(uchar).split(' ')[0].lower()
             if script_name != 'old':
@@ -104,7 +108,7 @@ def auto_detect(text, plugin = False):
             try:
                 char = unicodedata.name(uchar).lower()
             except:
-                pass
+                char = ''
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
@@ -125,6 +129,12 @@ def auto_detect(text, plugin = False):
 
     elif inputScript == 'Meetei':
         inputScript = 'MeeteiMayek'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Dives':
         inputScript = 'DivesAkuru'
     elif inputScript == 'Persian':
-- 
2.43.0


From 8f056b88cb20b85223c1f3eb1cfa93c6e523ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 21/24] fix: Malayalam homorganic nasals see past Vedic accents
 after the anusvara

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..ff289d8 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2756,7 +2756,7 @@ def MalayalamAnusvaraNasal(Strng):
     Chillus=['\u0D7A','\u0D7B','\u0D7C','\u0D7D','\u0D7E', 'ഩ‍്']
 
     for i in range(len(ListNNasal)):
-        Strng = re.sub('('+Anu+')'+'('+ListCNasal[i]+')',ListNNasal[i]+vir+r'\2',Strng)
+        Strng = re.sub('('+Anu+')'+ GM.VedicSvaras + '('+ListCNasal[i]+')',r'\2'+ListNNasal[i]+vir+r'\3',Strng)
 
     for i in range(len(ListNAnu)):
         Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')'+'(?<![' + ".".join(Chillus) + '])(?<!' + vir +')' + '('+ListNAnu[i]+')'+'('+vir+')'+'('+ListCAnu[i]+')',r'\1\2'+Anu+r'\5',Strng)
-- 
2.43.0


From 81e7bf408158c1729c9574016657f414231ba6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 22/24] fix: internal punctuation markers no longer clash with
 bullets and box lines in the text

---
 aksharamukha/PostProcess.py |  6 +++---
 aksharamukha/PreProcess.py  | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index ff289d8..5986469 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -38,11 +38,11 @@ def defaultPost(src, tgt, Strng, nativize, preoptions, postoptions):
 
     #Devanagari Dandas
     if tgt not in GM.Transliteration:
-        Strng = Strng.replace( '│', '।',).replace('┃', '॥')
+        Strng = Strng.replace( '\ufde1', '।',).replace('\ufde2', '॥')
     else:
-        Strng = Strng.replace( '│', '|',).replace('┃', '||')
+        Strng = Strng.replace( '\ufde1', '|',).replace('\ufde2', '||')
     #Pipe scripts as source
-    Strng = Strng.replace( "●", ".",)
+    Strng = Strng.replace( "\ufde0", ".",)
 
     return Strng
 
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index a95d5c2..f86c50f 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -159,13 +159,13 @@ def OriyaTargetVa(Strng):
     return Strng
 
 def RetainDevangariDanda(Strng):
-    Strng = Strng.replace('।', '│').replace('॥', '┃')
+    Strng = Strng.replace('।', '\ufde1').replace('॥', '\ufde2')
     return Strng
 
 def RetainPipeDanda(Strng, src):
     Strng = Strng.replace("।", "|").replace("॥", "||")
-    Strng = Strng.replace(".", "●")
-    Strng = Strng.replace("||", "┃").replace("|", "│")
+    Strng = Strng.replace(".", "\ufde0")
+    Strng = Strng.replace("||", "\ufde2").replace("|", "\ufde1")
 
     return Strng
 
@@ -1275,14 +1275,14 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
     if Source in GM.pipeScripts:
         if '|' in Strng:
-            Strng = Strng.replace(".", "●")
+            Strng = Strng.replace(".", "\ufde0")
             Strng = Strng.replace("।", "|").replace("॥", "||")
             Strng = Strng.replace("|", ".").replace("||", "..")
         if Source == "Itrans":
-            Strng = re.sub("●([acCDNnmh])", "."+r'\1', Strng)
+            Strng = re.sub("\ufde0([acCDNnmh])", "."+r'\1', Strng)
         elif Source == "Velthuis":
-            Strng = re.sub("●([rRlLmhtdnTDsyg])", "."+r'\1', Strng)
-            Strng = re.sub("●●([lr])", "."+r'\1', Strng)
+            Strng = re.sub("\ufde0([rRlLmhtdnTDsyg])", "."+r'\1', Strng)
+            Strng = re.sub("\ufde0\ufde0([lr])", "."+r'\1', Strng)
 
     if 'Arab' in Source:
         Strng = re.sub('([وي])(?=[\u064E\u0650\u064F\u0651\u064B\u064C\u064D])', '\u02DE' + r'\1', Strng)
-- 
2.43.0


From 5e6269ee33979025b4779a6f626132afe5de592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 23/24] fix: file conversion converts running text only, with
 the options given, by file extension

---
 aksharamukha/transliterate_file.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..79d3b58 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -3,18 +3,19 @@ import io
 import os
 from lxml import etree
 from zipfile import ZipFile
-from bs4 import BeautifulSoup
+from bs4 import BeautifulSoup, NavigableString
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        extension = os.path.splitext(file)[1].lower()
+        if extension == '.txt':
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif extension == '.docx':
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif extension in ('.htm', '.html', '.xhtml'):
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
@@ -43,17 +44,20 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # only running text: no document type, comments, scripts and style sheets
+        if type(node) is not NavigableString:
+            continue
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
     if is_api_mode:
-        return soup.prettify()
+        return str(soup)
     else:
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(soup.prettify())
+            f.write(str(soup))
 
         print('The following file has been created: ' + new_file)
 
@@ -95,13 +99,13 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From f01ac36a801b65f3073f17faf79ef85d743c1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 24/24] fix: autodetect keeps the pre-processing options that
 were asked for

---
 aksharamukha/transliterate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 128a5c5..4515000 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -625,7 +625,7 @@ def process_default(src, tgt, txt, nativize, post_options, pre_options):
     if src == 'autodetect':
         src = auto_detect(txt)
         #print('The autodetection is ' + src)
-        pre_options = detect_preoptions(txt, src)
+        pre_options = list(pre_options) + detect_preoptions(txt, src)
     elif src.lower() in scriptListLower:
         src = [script_id for script_id in scriptList if src.lower() == script_id.lower()][0]
 
@@ -715,7 +715,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src[0][1])
+        pre_options = list(pre_options) + detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -840,7 +840,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src[0][1])
+        pre_options = list(pre_options) + detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
-- 
2.43.0

