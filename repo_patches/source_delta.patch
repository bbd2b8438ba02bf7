From eddb965a580c880407ea86cb2213ca89e4fd2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 01/52] fix: Gurmukhi addak no longer merges or misreads
 letters with nukta

---
 aksharamukha/PostProcess.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..1e1ae90 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2573,10 +2573,14 @@ def InsertGeminationSign(Strng,Target): #Fix this
     ConAsp   = [GM.CrunchList('ConsonantMap', Target)[x] for x in [1,3,6,8,11,13,16,18,21,23]]
     ConOthrs = [GM.CrunchList('ConsonantMap', Target)[x] for x in [0,2,5,7,10,12,15,17,20,22,4,9,14,19,24]]
 
-    Strng = re.sub('('+'|'.join(ConUnAsp)+')'+'('+vir+')'+r'\1',GM.Gemination[Target]+r'\1',Strng)
+    # a letter is doubled only if the second one does not carry a nukta: श्ष, न्ऩ are not geminates in Gurmukhi
+    # likewise, a geminate that already carries the sign is not the first half of another one: क्क्ख
+    notNukta, notGem = ('(?!' + Gurmukhi.NuktaMap[0] + ')', '(?<!' + GM.Gemination[Target] + ')') if Target == 'Gurmukhi' else ('', '')
+
+    Strng = re.sub('('+'|'.join(ConUnAsp)+')'+'('+vir+')'+r'\1'+notNukta,GM.Gemination[Target]+r'\1',Strng)
 
     for i in range(len(ConAsp)):
-        Strng = re.sub('('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')',GM.Gemination[Target]+r'\3',Strng)
+        Strng = re.sub(notGem+'('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')',GM.Gemination[Target]+r'\3',Strng)
 
     return Strng
 
@@ -2591,7 +2595,8 @@ def ReverseGeminationSign(Strng,Target): #Fix this
     if Target == 'Gurmukhi':
         Strng = Strng.replace('ੱਸ਼਼', 'ਸ਼਼੍ਸ਼਼')
 
-    Strng = re.sub('(' + GM.Gemination[Target] + ')' + '('+'|'.join(ConUnAsp)+')', r'\2' + vir + r'\2', Strng)
+    # longest letters first, else the nukta of ਕ਼ (ਕ + ਼) is left behind
+    Strng = re.sub('(' + GM.Gemination[Target] + ')' + '('+'|'.join(sorted(ConUnAsp, key=len, reverse=True))+')', r'\2' + vir + r'\2', Strng)
 
     for i in range(len(ConAsp)):
         Strng = re.sub('(' + GM.Gemination[Target] + ')' + '(' + ConAsp [i] +')', ConUnAsp[i] + vir + r'\2', Strng)
-- 
2.43.0


From dc3e5063c9d895fdb48d75dda4b2671e1ffd24b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 02/52] fix: SLP1 nukta sign no longer collides with the letter
 for ddha

---
 aksharamukha/ScriptMap/Roman/SLP1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/Roman/SLP1.py b/aksharamukha/ScriptMap/Roman/SLP1.py
index ffba148..c6b5ee5 100644
--- a/aksharamukha/ScriptMap/Roman/SLP1.py
+++ b/aksharamukha/ScriptMap/Roman/SLP1.py
@@ -120,7 +120,7 @@ SinhalaConsonantMap =[
                       ]
 
 NuktaMap = [
-           '\u0051'
+           '\u0308'
            ]
 
 OmMap = [
-- 
2.43.0


From d39465a5d5c3ae6f153ca765965439ef7a8d3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 03/52] fix: the separator written before a long vowel letter
 is removed when reading romanized text

---
 aksharamukha/Convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..d018428 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -132,6 +132,8 @@ def convertScript(Strng,Source,Target):
         ## a_i => a<dev>i<dev> ; a_u = a<dev>u<dev>
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[2],  GM.CrunchSymbols(GM.Vowels,Target)[2])
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[4],  GM.CrunchSymbols(GM.Vowels,Target)[4])
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[3],  GM.CrunchSymbols(GM.Vowels,Target)[3])
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[5],  GM.CrunchSymbols(GM.Vowels,Target)[5])
 
         ## Joiners Vir + ZWJ
         vir = GM.CrunchList('ViramaMap', Target)[0]
-- 
2.43.0


From f7e20fc311a7cc58d1e0b44c08c3f6c65441e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 04/52] fix: Cyrillic letters with macron below are not read as
 anudatta

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..221d8c5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -150,7 +150,7 @@ def VedicSvarasCyrillic(Strng, Target):
 def VedicSvarasNonDiacritic(Strng):
     Strng = Strng.replace('̍', '\\\'')
     Strng = Strng.replace('̎', '\\"')
-    Strng = Strng.replace('̱', '\\_')
+    Strng = re.sub('(?<![лрн])̱', r'\\_', Strng) # л̱, р̱, н̱ are letters
     Strng = Strng.replace('gͫ̄', '\\m++')
     Strng = Strng.replace('gͫ', '\\m+')
 
-- 
2.43.0


From 6cbc2943d61ef9e6e08162e9b4415eb4465354f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 05/52] fix: Bengali, Assamese and Oriya o with candrabindu
 inside a word is not romanized as om

---
 aksharamukha/Convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index d018428..afa29c0 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -237,7 +237,12 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = Strng.replace(sOm, tOm)
+        if sOm == GM.CrunchSymbols(GM.Vowels, Source)[12] + GM.CrunchList('AyogavahaMap', Source)[0]:
+            # spelled o + candrabindu: it is om only as a word of its own (not in Bengali ওঁর)
+            other = '[^\\s' + re.escape(string.punctuation + ''.join(GM.CrunchSymbols(GM.Signs, Source)[1:3])) + ']'
+            Strng = re.sub('(?<!' + other + ')' + sOm + '(?!' + other + ')', tOm, Strng)
+        else:
+            Strng = Strng.replace(sOm, tOm)
 
         # Iterate for each character group
         for charList in GM.ScriptAll:
-- 
2.43.0


From 1ee0edb77c08d1f5223554050924cf6e6d98f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 06/52] fix: a word-initial cluster before a Thai preposed
 vowel is written alike at the start of the text and after a space

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 221d8c5..59def9b 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2178,7 +2178,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From aab29bbef8bd6fe2da24568ffc46dd27186c303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 07/52] fix: every om in a run of om words is recognised, not
 only every second one

---
 aksharamukha/Convert.py    | 6 +++---
 aksharamukha/PreProcess.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index afa29c0..f004d0c 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -80,14 +80,14 @@ def convertScript(Strng,Source,Target):
 
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
 
         punc = '(\s)'
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
@@ -187,7 +187,7 @@ def convertScript(Strng,Source,Target):
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
         if len(sOm) != 1:
-            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
             Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + '$', tOm, Strng)
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..2434d5c 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1299,14 +1299,14 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
         punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
 
         punc = '(\s)'
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
-- 
2.43.0


From 95dc8e10ce5f85c0e3dc46c66e11eb8b3e1f1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 08/52] fix: the Velthuis spelling of om is matched literally,
 not as a pattern

---
 aksharamukha/Convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index f004d0c..4a98e00 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -78,7 +78,7 @@ def convertScript(Strng,Source,Target):
         punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
-        sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
+        sOm, tOm = re.escape(GM.CrunchList('OmMap', Source)[0]),GM.CrunchList('OmMap', Target)[0]
 
         Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-- 
2.43.0


From d590ab2430ac24429597e898ff1b48791599932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:36 +0000
Subject: [PATCH 09/52] fix: keep text between ## unchanged in ITRANS input

Only the character conversion skipped the ## segments; input normalization,
nativization and options still rewrote them.
---
 aksharamukha/transliterate.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..93cab6b 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -335,6 +335,11 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if preoptions == [] and postoptions == [] and nativize == False and src == tgt:
         return txt
 
+    ## Itrans: text between ## is to be left as it is, only the text outside it is converted
+    if src == "Itrans" and '##' in txt:
+        return "".join(convert(src, tgt, segment, nativize, preoptions, postoptions) if i % 2 == 0 else segment
+                       for i, segment in enumerate(txt.split("##")))
+
     ## Semitic Switches - Add Shahmukhi/Sindhi later
     IndicSemiticMapping = { 'Hebrew': 'Hebr', 'Thaana': 'Thaa', 'Urdu': 'Arab-Ur', 'Shahmukhi': 'Arab-Pa'}
 
@@ -477,16 +482,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if src == "Oriya" and tgt == "IPA":
         txt = ConvertFix.OriyaIPAFixPre(txt)
 
-    if src == "Itrans" and '##' in txt:
-        #print('I am here tyring to do things')
-        transliteration = ''
-        for i, word in enumerate(txt.split("##")):
-            if (i%2 == 0):
-                transliteration += Convert.convertScript(word, src, tgt)
-            else:
-                transliteration += word
-    else:
-        transliteration = Convert.convertScript(txt, src, tgt)
+    transliteration = Convert.convertScript(txt, src, tgt)
 
     #print(transliteration)
 
-- 
2.43.0


From a890be9ba95d3d7ca82cb881821e95e83ed53a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 10/52] fix: pre-options OriyaSubojinedVa, removeZW and
 IPAIndic always failed

OriyaSubojinedVa held an invalid regular expression, removeZW called
str.replace without a replacement and IPAIndic returned nothing.
---
 aksharamukha/PreProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 2434d5c..1c7a8f7 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
@@ -1667,7 +1667,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C","").replace("\u200D","")
 
     return Strng
 
@@ -1791,4 +1791,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From 71702fefed08351cc4ed8eb6c28512f9358b066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 11/52] fix: indicDandas and romanFullStop options failed for
 Semitic scripts

They looked up the danda of scripts that have no table of signs.
---
 aksharamukha/PostProcess.py   | 2 +-
 aksharamukha/transliterate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 1e1ae90..a8cfb81 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -33,7 +33,7 @@ def defaultPost(src, tgt, Strng, nativize, preoptions, postoptions):
         Strng = RetainIndicNumerals(Strng,tgt,reverse=True)
     if 'indicNumerals' in postoptions:
         Strng = RetainIndicNumerals(Strng,tgt,reverse=False)
-    if 'romanFullStop' in postoptions:
+    if 'romanFullStop' in postoptions and tgt not in GM.SemiticScripts:
         Strng = RetainDandasIndic(Strng, tgt, reverse=True)
 
     #Devanagari Dandas
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 93cab6b..bd14ffa 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -413,7 +413,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if 'indicDandas' in postoptions:
         if src in GeneralMap.pipeScripts and '|' in txt:
             txt = PreProcess.RetainPipeDanda(txt, src)
-        elif GeneralMap.CrunchList('SignMap', src)[1] == '।':
+        elif src not in GeneralMap.SemiticScripts and GeneralMap.CrunchList('SignMap', src)[1] == '।':
             preoptions = preoptions + ['RetainDevangariDanda']
         else:
             if tgt not in GeneralMap.Transliteration:
-- 
2.43.0


From 2cee0dd17554fdba13892f44c72754cb074cf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 12/52] fix: no LoC romanization table exists for Batak, use
 ISO 15919 as for other unsupported scripts

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 6ef0fe9fd35214cfd04fc581c75e188673841c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 13/52] fix: the internal mark of the shvanakhall option does
 not stay in the output

---
 aksharamukha/transliterate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index bd14ffa..3e9b2b3 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -459,6 +459,10 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     for options in preoptions:
       txt = getattr(PreProcess, options)(txt)
 
+    # the mark of the option shvanakhall is understood (and removed) by the reading of Hebrew only
+    if src != 'Hebrew':
+      txt = txt.replace(' \u0BDE', '')
+
     ### Semitic Switches
     if 'novowelshebrew' in preoptions and src == 'Hebr':
         txt = txt.replace('\u05B7', '')
-- 
2.43.0


From 7ed83a117c616f8f9d55b62ab61a96e9821960e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 14/52] fix: all language codes listed for a script are
 recognised, not only the first one

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 3e9b2b3..0bbcc8e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -644,7 +644,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -741,7 +741,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From f6921385ba79aa0c74cbc9bc50316fa5adf1c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 15/52] fix: autodetect works with language names, and applies
 the detected input options with script and language codes

---
 aksharamukha/transliterate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 0bbcc8e..99ce887 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -701,7 +701,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -826,7 +826,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -851,8 +851,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = src_name # detected by process_lang_tag
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 395198c400f577a89e4d79de77926299b5cd8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 16/52] fix: script detection no longer fails on text without
 named characters, or on Myanmar text that begins with a line break

---
 aksharamukha/transliterate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 99ce887..5725c67 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -77,6 +77,9 @@ def auto_detect(text, plugin = False):
         else:
             script = ''
 
+    if script == '':
+        return 'Zyyy'
+
     inputScript = script[0].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
@@ -103,8 +106,8 @@ def auto_detect(text, plugin = False):
         for uchar in text:
             try:
                 char = unicodedata.name(uchar).lower()
-            except:
-                pass
+            except ValueError:
+                continue
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
-- 
2.43.0


From 867ba48a15ecc85d5c64468d92fd7d0ae6705911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 17/52] fix: Gunjala Gondi, Masaram Gondi and Hanifi Rohingya
 text is detected under its supported name

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 5725c67..617ba97 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -134,6 +134,12 @@ def auto_detect(text, plugin = False):
         inputScript = 'OldPersian'
     elif inputScript == 'Phags-pa':
         inputScript = 'PhagsPa'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Ol':
         inputScript = 'Santali'
     elif inputScript == 'Sora':
-- 
2.43.0


From 54e53d44dc935df556652b6fabee287ece30e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 18/52] fix: ISO 15924 code of Makasar is Maka

---
 aksharamukha/yaml/aksharamukha-scripts.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/yaml/aksharamukha-scripts.yaml b/aksharamukha/yaml/aksharamukha-scripts.yaml
index 92b7761..c4d96a3 100644
--- a/aksharamukha/yaml/aksharamukha-scripts.yaml
+++ b/aksharamukha/yaml/aksharamukha-scripts.yaml
@@ -208,7 +208,7 @@ Mahajani:
   lang: mwr
   lang-desc: Marwari
 Makasar:
-  script: Makar
+  script: Maka
   lang: mak
   lang-desc: Makasar
 Malayalam:
-- 
2.43.0


From c7956250d10d972f3e50dd40953ddb3e0366f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 19/52] fix: detection counts letters, not the spaces, digits
 and dandas shared among scripts

---
 aksharamukha/transliterate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 617ba97..02c3152 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -42,7 +42,10 @@ def unique_everseen(iterable, key=None):
 def auto_detect(text, plugin = False):
     scripts = []
 
-    for uchar in text:
+    # spaces, digits and punctuation are shared among scripts: the letters decide, if there are any
+    letters = [uchar for uchar in text if unicodedata.category(uchar) in ('Lu', 'Ll', 'Lt', 'Lo')]
+
+    for uchar in letters or text:
         try:
             script_name = unicodedata.name(uchar).split(' ')[0].lower()
             if script_name != 'old':
-- 
2.43.0


From 78d71768696fe8f77c75d6843f44cfe0bc1885d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 20/52] fix: Soyombo letters with nukta were written as other
 letters, one of them of another script

---
 aksharamukha/ScriptMap/EastIndic/Soyombo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/EastIndic/Soyombo.py b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
index 6b31896..048e1aa 100644
--- a/aksharamukha/ScriptMap/EastIndic/Soyombo.py
+++ b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
@@ -127,10 +127,10 @@ NuktaConsonantMap =  [
                      '\U00011A5D\u02BD',
                      '\U00011A5E\u02BD',
                      '\U00011A79',
-                     '\U00011A16\u02BD',
                      '\U00011A68\u02BD',
                      '\U00011A69\u02BD',
-                     '\U00011A71\u02BD'
+                     '\U00011A71\u02BD',
+                     '\U00011A7B\u02BD'
                      ]
 
 SinhalaConsonantMap =[
-- 
2.43.0


From fbb2a831ce9139f12c5d65db20590d0c16353384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 21/52] fix: detection of the other Semitic scripts counts
 letters only, too

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 02c3152..dd911d4 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -203,7 +203,7 @@ def auto_detect(text, plugin = False):
     else:
         from . import gimeltra
         tr = gimeltra.Transliterator()
-        inputScript = tr.auto_script(text)
+        inputScript = tr.auto_script(''.join(letters) or text)
 
     return inputScript
 
-- 
2.43.0


From a134222e4253fa490f0e55cb06cb436f05277cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 22/52] fix: Ahom e with anusvara and au before a final
 consonant, and Tai Tham mai kang lai after vowels are read back

---
 aksharamukha/ConvertFix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 59def9b..778bfc5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3301,7 +3301,7 @@ def FixTaiTham(Strng,reverse=False):
     else:
         AA = 'ᩣ'
         Strng = Strng.replace('ᩔ', 'ᩈ᩠ᩈ') ## Reverse great sa
-        Strng = re.sub('('+ListC+')'+'\u1A58',r'\1' + ng,Strng) # Reverse: Kai mang Lai -> ng + virama
+        Strng = Strng.replace('\u1A58', ng) # Reverse: Kai mang Lai -> ng + virama
         Strng = Strng.replace('\u1A60',vir) # Regular Virama for Transliteration
         Strng = Strng.replace("ᩤ", AA) # Reverse Tall A
 
@@ -3521,12 +3521,15 @@ def FixAhom(Strng, reverse = False):
         vir = Ahom.ViramaMap[0]
         anu = Ahom.AyogavahaMap[1]
 
+        # vowel sign e written around the anusvara
+        Strng = Strng.replace('\U00011726' + anu + '\U00011727', '\U00011726\U00011727' + anu)
+
         #reverse closed syllable e
         Strng = re.sub(anu + '\U00011727' + '(?!\U00011728)', '\U00011726\U00011727\U0001172A', Strng)
         Strng = re.sub('(\U00011726)(.)('+vir+')', '\U00011726\U00011727'+r'\2\3', Strng)
 
         #rever closed syllable o
-        Strng = re.sub('(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
+        Strng = re.sub('(?<!\U00011727)(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
 
         Strng = Strng.replace(anu + '\U00011728', '\U00011726\U00011721\U0001172A')
 
-- 
2.43.0


From cec36ffc3d2281b0b83873745eedd3651aa29269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 23/52] fix: Kharoshthi and Old Persian numerals are read as
 numbers, and zero, for which they have no sign, is kept

---
 aksharamukha/ConvertFix.py | 41 +++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 778bfc5..aea6fe1 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2270,13 +2270,11 @@ def OldPersianNumeral(Strng,reverse=False):
 
             perNum = (Hundred*hN) + (Twenty*tW) + (Ten*tN) + (Two*t2) + (One*n1)
 
-            Strng = Strng.replace(str(num),perNum)
+            if num > 0: # there is no sign for zero
+                Strng = Strng.replace(str(num),perNum)
     else:
-        Strng = Strng.replace(One, '1#')
-        Strng = Strng.replace(Two, '2#')
-        Strng = Strng.replace(Ten, '10#')
-        Strng = Strng.replace(Twenty, '20#')
-        Strng = Strng.replace(Hundred, '100#')
+        values = {One: 1, Two: 2, Ten: 10, Twenty: 20, Hundred: 100}
+        Strng = re.sub('[' + ''.join(values) + ']+', lambda m: str(sum(values[x] for x in m.group())), Strng)
 
     return Strng
 
@@ -2285,7 +2283,8 @@ def KharoshthiNumerals(Strng, reverse=False):
 
     if not reverse:
         for num in Numbers:
-             Strng = Strng.replace(str(num),kharoshthiNumber(num))
+             if num > 0: # there is no sign for zero
+                 Strng = Strng.replace(str(num),kharoshthiNumber(num))
     else:
         one = '𐩀'
         two = '𐩁'
@@ -2296,18 +2295,28 @@ def KharoshthiNumerals(Strng, reverse=False):
         hundred = '𐩆'
         thousand = '𐩇'
 
-        Strng = Strng.replace(one, '1#')
-        Strng = Strng.replace(two, '2#')
-        Strng = Strng.replace(three, '3#')
-        Strng = Strng.replace(four, '4#')
-        Strng = Strng.replace(ten, '10#')
-        Strng = Strng.replace(twenty, '20#')
-        Strng = Strng.replace(hundred, '100#')
-        Strng = Strng.replace(thousand, '1000#')
-
+        values = {one: 1, two: 2, three: 3, four: 4, ten: 10, twenty: 20, hundred: 100, thousand: 1000}
+        Strng = re.sub('[' + ''.join(values) + ']+', lambda m: str(kharoshthiValue([values[x] for x in m.group()])), Strng)
 
     return Strng
 
+def kharoshthiValue(values):
+    # the ones before a hundred, and all that precedes a thousand, are multiplied; the rest is added
+    total = tens = ones = 0
+    for value in values:
+        if value == 1000:
+            total += (tens + ones or 1) * 1000
+            tens = ones = 0
+        elif value == 100:
+            tens += (ones or 1) * 100
+            ones = 0
+        elif value < 10:
+            ones += value
+        else:
+            tens += value
+
+    return total + tens + ones
+
 def kharoshthiNumber(Strng):
     one = '𐩀'
     two = '𐩁'
-- 
2.43.0


From 96dc46b31ac33ffb571084c3972a9f520e4a87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 24/52] fix: aspirated c is read back from the Semitic
 romanization (Urdu and Shahmukhi ch-h gave a modifier letter)

---
 aksharamukha/Convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 4a98e00..84e20b6 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -266,7 +266,7 @@ def convertScript(Strng,Source,Target):
 
         # special case just for roman semitic
         if Source == 'RomanSemitic':
-            unasp = ['k', 'g', 'c', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
+            unasp = ['k', 'g', 'č', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
             charPairsH = [(x, y) for x, y in charPairs if 'ʰ' in x]
             charPairsNotH = [(x, y) for x, y in charPairs if 'ʰ' not in x]
             charPairs = charPairsNotH + charPairsH
-- 
2.43.0


From 2febb237581dc2444952ec9e7c1d2df2b2d3de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 25/52] fix: Hebrew tet is not read as t followed by a stray
 mark

---
 aksharamukha/Convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 84e20b6..c0d50c7 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -268,7 +268,7 @@ def convertScript(Strng,Source,Target):
         if Source == 'RomanSemitic':
             unasp = ['k', 'g', 'č', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
             charPairsH = [(x, y) for x, y in charPairs if 'ʰ' in x]
-            charPairsNotH = [(x, y) for x, y in charPairs if 'ʰ' not in x]
+            charPairsNotH = [(x, y) for x, y in charPairs if 'ʰ' not in x and x != 'tQ'] # tQ: t with nukta
             charPairs = charPairsNotH + charPairsH
             for x, y in charPairs:
                 if x in unasp:
-- 
2.43.0


From 012e22ba4567930e0eca1a0a91069755804528f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 26/52] fix: the consonant k with line below takes its vowels
 in Semitic text

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index 895405b..a67f71f 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -278,7 +278,7 @@ SemiticScripts = ['Arab-Pa', 'Syrj', 'Syrn', 'Syre', 'Thaa', 'Arab-Ur', 'Type',
 
 ## Add new consonants here
 
-SemiticConsonants = ['ʾ','b','v','g','j','d','h','w','z','ḥ','ṭ','y','k','l','m','n','s','ʿ','f','ṣ','q','r','š','t','ḍ','ḏ','ḫ','ġ','ṯ','ẓ','p','č','ž','ɖ','ʈ','ʂ','ɭ','ɲ','ɳ','ɽ','ʰ'] # make a list
+SemiticConsonants = ['ʾ','b','v','g','j','d','h','w','z','ḥ','ṭ','y','k','l','m','n','s','ʿ','f','ṣ','q','r','š','t','ḍ','ḏ','ḫ','ġ','ṯ','ẓ','ḵ','p','č','ž','ɖ','ʈ','ʂ','ɭ','ɲ','ɳ','ɽ','ʰ'] # make a list
 
 SemiticVowels = ['a', 'ā', 'i', 'ī', 'u', 'ū', 'ē', 'ō', 'e', 'o', '#', '\u033D']
 
-- 
2.43.0


From 1f41625df8d0ea2b440a8e442064c7c88a6e54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 27/52] fix: Baraha ~e is read as the letter it is written for

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 1c7a8f7..754480a 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1333,7 +1333,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == 'BarahaNorth' or Source == 'BarahaSouth':
         # alternate representations
 
-        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~e', '~a'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
+        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
 
         for alt, norm in alt_baraha:
             Strng = Strng.replace(alt, norm)
-- 
2.43.0


From c115fec497668df71eb6059371ab20dd481ddca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 28/52] fix: Baraha Kx stays the nukta letter it is written for

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 754480a..a608a3b 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1333,7 +1333,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == 'BarahaNorth' or Source == 'BarahaSouth':
         # alternate representations
 
-        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
+        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('khx', 'Kx'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
 
         for alt, norm in alt_baraha:
             Strng = Strng.replace(alt, norm)
-- 
2.43.0


From a6a011b6650e2f2c7639d322634da8770fd957b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 29/52] fix: Baraha nx is one letter also in Tamil

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index a608a3b..4885890 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1339,7 +1339,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             Strng = Strng.replace(alt, norm)
 
         if Target == 'Tamil':
-            Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
+            Strng = Strng.replace('nx', 'n').replace('n', 'nx').replace('~nx', 'n')
             print(Strng)
 
     if 'IAST' in Source:
-- 
2.43.0


From 6401a31bd4e1bdc0121746729674740e85ff0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 30/52] fix: converting an HTML file leaves doctype, comments,
 scripts and style sheets as they are

---
 aksharamukha/transliterate_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..88f8b5c 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -3,7 +3,7 @@ import io
 import os
 from lxml import etree
 from zipfile import ZipFile
-from bs4 import BeautifulSoup
+from bs4 import BeautifulSoup, NavigableString
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +43,9 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # leave the doctype, comments, scripts and style sheets as they are
+        if type(node) is not NavigableString:
+            continue
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From 9de255a7b6d328b1a4fdd06070236f82facb5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 31/52] fix: a Word file with an empty text run can be
 converted

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 88f8b5c..788a8f2 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -98,7 +98,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
-- 
2.43.0


From f07aa6c783e59288c44b30c9b61a93c4fa2deb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 32/52] fix: pre- and post-options of a Word file are not
 exchanged

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 788a8f2..b4affc9 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -103,8 +103,8 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From 8166a803035f75ba513c6c4e8e936a0516d1ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 33/52] fix: the kind of a file is taken from its extension,
 not from anywhere in its path

---
 aksharamukha/transliterate_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index b4affc9..f44653d 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -10,11 +10,13 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        ext = os.path.splitext(file)[1]
+
+        if '.txt' in ext:
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif '.docx' in ext:
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif '.htm' in ext:
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From cd55a1015e519218c0da6dc211443d0a7226679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 34/52] fix: Vedic accents beside an avagraha or a candrabindu,
 and between romanizations, are kept

The separator written between udatta and avagraha is dropped again on reading, and is written by every
romanization whose avagraha is an apostrophe (SLP1 wrote a dirgha svarita instead). The anudatta arrow after
a candrabindu is no longer sorted in front of it, and conversions between two romanizations no longer take
the mark of the udatta for an avagraha.
---
 aksharamukha/Convert.py    |  7 ++++++-
 aksharamukha/ConvertFix.py | 12 +++++++++++-
 aksharamukha/PreProcess.py | 26 ++++++--------------------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index c0d50c7..21ee7f0 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -160,6 +160,9 @@ def convertScript(Strng,Source,Target):
 
         ScriptAll = GM.Vowels+GM.Consonants+GM.CombiningSigns+GM.Numerals+GM.Signs+GM.Aytham
 
+        # The marks of the accents (\' etc.) are not letters or avagrahas
+        Strng = CF.VedicSvarasLatinIndic(Strng, Source)
+
         Strng = convertInter(Strng,Source)
 
         SourceScript = GM.CrunchSymbols(ScriptAll,GM.Inter)
@@ -169,6 +172,8 @@ def convertScript(Strng,Source,Target):
         for x,y in ScriptMapAll:
             Strng = Strng.replace(x,y)
 
+        Strng = CF.VedicSvarsIndicLatin(Strng, Target)
+
         Strng = CF.PostFixRomanOutput(Strng,Source,Target)
 
     elif Source in GM.IndicScripts and Target in GM.IndicScripts:
@@ -286,7 +291,7 @@ def convertScript(Strng,Source,Target):
         # Remove all intermediate characters and fix Output
         Strng = CF.FixRomanOutput(Strng,Target)
 
-        Strng = CF.VedicSvarsIndicLatin(Strng)
+        Strng = CF.VedicSvarsIndicLatin(Strng, Target)
 
         Strng = CF.PostFixRomanOutput(Strng,Source,Target)
 
diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index aea6fe1..c2ed9a2 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -84,9 +84,19 @@ def VedicSvarasLatinIndic(Strng, Source):
     Strng = Strng.replace('\\\'', '॑')
     Strng = Strng.replace('\\_', '॒')
 
+    ## The separator between udatta and avagraha (see VedicSvarsIndicLatin) is not a part of the text
+    avagraha = GM.CrunchList('SignMap', Source)[0]
+    Strng = Strng.replace('॑\u200B' + avagraha, '॑' + avagraha)
+
     return Strng
 
-def VedicSvarsIndicLatin(Strng):
+def VedicSvarsIndicLatin(Strng, Target):
+    # Fix Udata + Avagraha combination
+    # नमो॑ऽयम् --> namo̍​'yam
+    avagraha = GM.CrunchList('SignMap', Target)[0]
+    if avagraha.startswith("'") and Target not in ['RomanReadable', 'RomanColloquial']:
+        Strng = Strng.replace('॑' + avagraha, '॑\u200B' + avagraha)
+
     Strng = Strng.replace('᳚', '\\"')
     Strng = Strng.replace('॑', '\\\'')
     Strng = Strng.replace('॒', '\\_')
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 4885890..e011cf7 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1363,16 +1363,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == "Latn" and 'Syr' in Target:
         Strng = Strng.replace('ḇ', 'v').replace('ḡ', 'ḡ').replace('ḵ', 'ḫ').replace('p̄', 'f')
 
-    if ('↓' in Strng or '↑' in Strng) and Target in GM.IndicScripts :
-        Strng = Strng.replace('↓', '॒')
-        Strng = Strng.replace('↑↑', '᳚')
-        Strng = Strng.replace('↑', '॑')
-
-    if ('↓' in Strng or '↑' in Strng) and Target in GM.LatinScripts :
-        Strng = Strng.replace('↓', '\\_')
-        Strng = Strng.replace('↑↑', '\\"')
-        Strng = Strng.replace('↑', '\\\'')
-
     if Source == "WarangCiti":
         Strng = Strng.replace('\u200D', '\u00D7')
 
@@ -1387,17 +1377,13 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
     Strng = normalize(Strng,Source)
 
-    ## Remove unsupported letters and replace with supported ones
-
-    #Fix Udata + Avagraha combination
-    # नमो॑ऽयम् --> namo̍​'yam
-    if Source in GM.IndicScripts and Target in GM.Transliteration:
-        udatta = '\u0951'
-        avagrahaSrc = GM.CrunchList('SignMap', Source)[0]
-        avagrahaTgt = GM.CrunchList('SignMap', Target)[0]
+    ## After the normalization, which would sort the anudatta before a candrabindu (m̐)
+    if ('↓' in Strng or '↑' in Strng) and Target in GM.IndicScripts + GM.LatinScripts:
+        Strng = Strng.replace('↓', '॒')
+        Strng = Strng.replace('↑↑', '᳚')
+        Strng = Strng.replace('↑', '॑')
 
-        if avagrahaTgt == "'":
-            Strng = Strng.replace(udatta + avagrahaSrc, udatta + '\u200B' + avagrahaSrc)
+    ## Remove unsupported letters and replace with supported ones
 
     return Strng
 
-- 
2.43.0


From 61a192eb55edcfec13abbdb6eb28cf8056025781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 35/52] fix: alternate spellings of independent vowels in
 Javanese and Dives Akuru, and their reading

---
 aksharamukha/ConvertFix.py  | 2 +-
 aksharamukha/PostProcess.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index c2ed9a2..7b870fc 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1555,7 +1555,7 @@ def FixJavanese(Strng,reverse=False):
         vowelsA = ['ꦄꦶ', 'ꦄꦷ', 'ꦄꦸ', 'ꦄꦹ', 'ꦄꦽ', 'ꦄ꧀ꦉꦴ', 'ꦄ꧀ꦭꦼ', 'ꦄ꧀ꦭꦼꦴ', 'ꦄꦺ', 'ꦄꦻ', 'ꦄꦺꦴ', 'ꦄꦻꦴ']
         vowels = ['ꦆ', 'ꦇ', 'ꦈ', 'ꦈꦴ', 'ꦉ', 'ꦉꦴ', 'ꦊ', 'ꦋ', 'ꦌ', 'ꦍ', 'ꦎ', 'ꦎꦴ']
 
-        for v, vA in zip(vowels, vowelsA):
+        for v, vA in sorted(zip(vowels, vowelsA), key=lambda x: len(x[1]), reverse=True):
             Strng = Strng.replace(vA, v)
 
 
diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index a8cfb81..435c7f0 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1837,8 +1837,8 @@ def DivesAkuruAlternateIndVowels(Strng):
 
     # replace ind. vow with /y/
 
-    vow = "𑤀 𑤁 𑤂 𑤃 𑤄 𑤅 𑤆 𑤆𑤵 𑤉".split(" ")
-    vowy = "𑤥 𑤥𑤰 𑤥𑤱 𑤥𑤲 𑤥𑤳 𑤥𑤴 𑤥𑤵 𑤥𑤷 𑤥𑤸".split(" ")
+    vow = "𑤀 𑤁 𑤂 𑤃 𑤄 𑤅 𑤆𑤵 𑤆 𑤉".split(" ")
+    vowy = "𑤥 𑤥𑤰 𑤥𑤱 𑤥𑤲 𑤥𑤳 𑤥𑤴 𑤥𑤷 𑤥𑤵 𑤥𑤸".split(" ")
 
     for v, vy in zip(vow, vowy):
         Strng = Strng.replace(v, vy)
@@ -1885,8 +1885,9 @@ def JavaneseAvowels(Strng):
     vowelsA = ['ꦄꦶ', 'ꦄꦷ', 'ꦄꦸ', 'ꦄꦹ', 'ꦄꦽ', 'ꦄ꧀ꦉꦴ', 'ꦄ꧀ꦭꦼ', 'ꦄ꧀ꦭꦼꦴ', 'ꦄꦺ', 'ꦄꦻ', 'ꦄꦺꦴ', 'ꦄꦻꦴ']
     vowels = ['ꦆ', 'ꦇ', 'ꦈ', 'ꦈꦴ', 'ꦉ', 'ꦉꦴ', 'ꦊ', 'ꦋ', 'ꦌ', 'ꦍ', 'ꦎ', 'ꦎꦴ']
 
-    for v, vA in zip(vowels, vowelsA):
-        Strng = Strng.replace(v, vA)
+    vowelToA = dict(zip(vowels, vowelsA))
+    # longer vowels first; a letter after the pangkon is a vowel sign
+    Strng = re.sub('(?<!꧀)(' + '|'.join(sorted(vowels, key=len, reverse=True)) + ')', lambda m: vowelToA[m.group(1)], Strng)
 
     return Strng
 
-- 
2.43.0


From a58847b12dadc245bd2d2a345f087c6c2e6daa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 36/52] fix: the archaic jna of Kawi and the Sanskrit jha of
 Tibetan are read

---
 aksharamukha/ConvertFix.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 7b870fc..41b52f8 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1515,14 +1515,14 @@ def FixKawi(Strng,reverse=False):
 
 
     else:
+        # reverse JNA
+        Strng = Strng.replace('\U00011F33', '𑼙𑽂𑼛')
         # Replace Subjoining Virama with Explicit Virama
         Strng = Strng.replace('\U00011F42',vir)
         # Replace Repha
         Strng = Strng.replace('\U00011F02', ra + vir)
         # reverse AltA
         Strng = Strng.replace(aVSAlt, aVS)
-        # reverse JNA
-        Strng = Strng.replace('\U00011F33', '𑼙𑽂𑼛')
         # decompose ind.vowels
         Strng = Strng.replace('\U00011F04\U00011F34', '\U00011F05').replace('\U00011F06\U00011F34', '\U00011F07').replace('\U00011F08\U00011F34', '\U00011F09')
         # reverse Alt ai, alt au
@@ -1930,6 +1930,9 @@ def FixTibetan(Strng,reverse=False, swapNative = True):
 
 
     if reverse:
+        if swapNative:
+            Strng = Strng.replace('ཇྷ', 'ཛྷ') ## JHA -> DZHA
+
         AspirateDecom= ["གྷ", "ཌྷ", "དྷ", "བྷ", "ཛྷ", "ྒྷ", "ྜྷ", "ྡྷ", "ྦྷ", "ྫྷ"]
         AspirateAtomic = ["གྷ", "ཌྷ", "དྷ", "བྷ", "ཛྷ", "ྒྷ", "ྜྷ", "ྡྷ", "ྦྷ", "ྫྷ"]
 
@@ -1959,7 +1962,6 @@ def FixTibetan(Strng,reverse=False, swapNative = True):
         Strng = re.sub('([ྈྉ])(\u0f84)', r'\1',  Strng)
 
         if swapNative:
-            Strng = Strng.replace('ཇྷ', 'ཛྷ') ## JHA -> DZHA
             Strng = Strng.replace("ཇ", "ཛ")
             Strng = Strng.replace('ཅ', 'ཙ')
             Strng = Strng.replace('ཆ', 'ཚ')
-- 
2.43.0


From bab8463980002a14eb9092963e3e5af509e93d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 37/52] fix: romanFullStop writes one full stop for scripts
 with one danda for both, and finds one-way dandas

---
 aksharamukha/PostProcess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 435c7f0..4364eae 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2892,14 +2892,15 @@ def tbadiff(Strng,Target):
     return Strng
 
 def RetainDandasIndic(Strng, Target, reverse=False):
-    Dandas = GM.CrunchList('SignMap', Target)[1:3]
+    Dandas = [danda.replace('\u02BD', '') for danda in GM.CrunchList('SignMap', Target)[1:3]] # without the mark of one-way mappings
 
     if not reverse:
         Strng = Strng.replace('..', Dandas[1])
         Strng = Strng.replace('.', Dandas[0])
     else:
         Strng = Strng.replace(Dandas[0], '.')
-        Strng = Strng.replace(Dandas[1], '..')
+        if Dandas[1] != Dandas[0]:
+            Strng = Strng.replace(Dandas[1], '..')
 
     return Strng
 
-- 
2.43.0


From 0f95eb9035b60b9d0f27c80db4fd584083367a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 38/52] fix: short a before an initial long vowel is written in
 Semitic scripts

---
 aksharamukha/PostProcess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 4364eae..203f6e5 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -685,7 +685,8 @@ def insertARomanSemitic(Strng):
     Strng = Strng.replace('\u02BD', '')
     consonantsAll = '(' + '|'.join(sorted(GM.SemiticConsonants, key = len, reverse=True)) + ')'
     #above does not ocntain semitic consonants
-    vowelsAll = '(' + '|'.join(GM.SemiticVowels) + ')'
+    # a vowel with circumflex stands for itself : the consonant before it still needs /a/
+    vowelsAll = '(' + '|'.join(GM.SemiticVowels) + ')(?!\u0302)'
     #print(Strng)
     Strng = re.sub(consonantsAll + '(?![꞉ʰ])(?!' + vowelsAll + ')', r'\1' + 'a', Strng)
     #print(Strng)
-- 
2.43.0


From 09f9c5f890c6a3a81d67fc5226017b0d87f9676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 39/52] fix: an initial vowel after a vowel is read from West
 Syriac without a stray circumflex

---
 aksharamukha/PreProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index e011cf7..ec871b3 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -533,6 +533,7 @@ def FixSemiticRoman(Strng, Source):
             Strng = Strng.replace('ī', 'i').replace('ū', 'u').replace('ō', 'o')
 
             for vow1, vow2 in zip(vowelsInDepSyrc1, vowelsInDepSyrc2):
+                Strng = Strng.replace(vow1 + '\u0302', vow2)
                 Strng = re.sub('(?<!\w)' + vow1, vow2, Strng)
 
             Strng = Strng.replace('̂̂', '̂').replace('ô̂', 'ô') # [oi]^^ -> i^
-- 
2.43.0


From cbc7d989a319e9a1a96d955f54913efb5be948d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 40/52] fix: diphthongs and dead consonants before an initial
 long vowel are read from Arabic and Latin letters

---
 aksharamukha/PreProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ec871b3..3a3ed59 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -549,8 +549,8 @@ def FixSemiticRoman(Strng, Source):
     ## Add scripts with vowels here
     if "Arab" in Source or Source == 'Latn' or Source == "Hebr" or Source == "Thaa" or Source == 'Type':
         basic_vowels = '(' + '|'.join(['a', 'ā', 'i', 'ī', 'u', 'ū', 'ē', 'ō', 'e', 'o', '#', vir]) + ')'
-        Strng = re.sub('(ŵ)(?=' + basic_vowels + ')', "w", Strng)
-        Strng = re.sub('(ŷ)(?=' + basic_vowels + ')', "y", Strng)
+        Strng = re.sub('(ŵ)(?=' + basic_vowels + '(?!\u0302))', "w", Strng)
+        Strng = re.sub('(ŷ)(?=' + basic_vowels + '(?!\u0302))', "y", Strng)
 
         Strng = re.sub('(?<=' + cons_prev + ')' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
         Strng = re.sub('(?<=ḧ)' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
@@ -580,7 +580,7 @@ def FixSemiticRoman(Strng, Source):
         Strng = Strng.replace(s, i)
 
     if 'Arab' in Source:
-        Strng = re.sub('(\u033D)([iuā])', r'\2', Strng)
+        Strng = re.sub('(\u033D)([iuā])(?!\u0302)', r'\2', Strng)
         Strng = re.sub('(\u033D)([a])', '', Strng)
 
     ## Lone Aliph to Nukta
-- 
2.43.0


From b4764d4839ed56cbbf986bd6ba828cfc1362bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 41/52] fix: y with a vowel after a short i is read from
 Hebrew, Urdu, Persian and Shahmukhi

---
 aksharamukha/PreProcess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 3a3ed59..dfba8d5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1286,9 +1286,12 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             Strng = re.sub("●●([lr])", "."+r'\1', Strng)
 
     if 'Arab' in Source:
-        Strng = re.sub('([وي])(?=[\u064E\u0650\u064F\u0651\u064B\u064C\u064D])', '\u02DE' + r'\1', Strng)
+        Strng = re.sub('([ويی])(?=[\u064E\u0650\u064F\u0651\u064B\u064C\u064D])', '\u02DE' + r'\1', Strng)
         #Strng = re.sub('((\u064E|\u0650|\u0652|\u064F))(\u0651)', r'\2', Strng)
 
+    if Source == 'Hebr': ## yod with its own vowel is not the long i of the preceding hiriq
+        Strng = re.sub('(\u05B4\u05BC?׳?)(י)(?=[\u05B0-\u05BB\u05C7])', r'\1' + '\u02DE' + r'\2', Strng)
+
     if Source in ["Syrj", "Syrn"]:
         Strng = Strng.replace('\u0323', '\u0742')
 
-- 
2.43.0


From 8b32f37729c545cb7b33ae5952476cc8ee354d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 42/52] fix: initial candra vowels are written in Semitic
 scripts

---
 aksharamukha/ScriptMap/Roman/RomanSemitic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/Roman/RomanSemitic.py b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
index fd04c62..976e39c 100644
--- a/aksharamukha/ScriptMap/Roman/RomanSemitic.py
+++ b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
@@ -25,8 +25,8 @@ SouthVowelMap = [
                 ]
 
 ModernVowelMap = [
-                 'ē̂\u02BD',
-                 'ā̂\u02BD'
+                 'ē̂\u02BD',
+                 'ā̂\u02BD'
                  ]
 
 SinhalaVowelMap = [
-- 
2.43.0


From 97050f7611733a9374f58f0292a6a3d79a870f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 43/52] fix: Old North Arabian th is written without a stray
 left-to-right mark

---
 aksharamukha/json/gimeltra_data.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/json/gimeltra_data.json b/aksharamukha/json/gimeltra_data.json
index 339de17..b9b57b3 100644
--- a/aksharamukha/json/gimeltra_data.json
+++ b/aksharamukha/json/gimeltra_data.json
@@ -853,7 +853,7 @@
                 "ḫ": "𐪍",
                 "ḏ": "𐪙",
                 "ẓ": "𐪜",
-                "ṯ": "𐪛‎"
+                "ṯ": "𐪛"
             },
             "Nbat": {
                 "ʾ": "𐢁",
-- 
2.43.0


From 8abba832455be23cf989c8423e397a1bf873aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 44/52] fix: Semitic scripts are romanized in one pass (shin
 was written z2aa in HK, sahaa in ITRANS)

---
 aksharamukha/Convert.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 21ee7f0..beb17ba 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -272,14 +272,12 @@ def convertScript(Strng,Source,Target):
         # special case just for roman semitic
         if Source == 'RomanSemitic':
             unasp = ['k', 'g', 'č', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
-            charPairsH = [(x, y) for x, y in charPairs if 'ʰ' in x]
-            charPairsNotH = [(x, y) for x, y in charPairs if 'ʰ' not in x and x != 'tQ'] # tQ: t with nukta
-            charPairs = charPairsNotH + charPairsH
+            ## in one pass, since the source letters are Latin letters as well
+            pairs = {}
             for x, y in charPairs:
-                if x in unasp:
-                    Strng = re.sub(x + '(?!(ʰ|\u0324))', y, Strng)
-                else:
-                    Strng = Strng.replace(x,y)
+                pairs.setdefault(x, y)
+            letters = [re.escape(x) + ('(?!ʰ|\u0324)' if x in unasp else '') for x in sorted(pairs, key=len, reverse=True) if x]
+            Strng = re.sub('|'.join(letters), lambda m: pairs[m.group(0)], Strng)
         # for all other transformations
         else:
             # Perform replacement sequentially for each character group
-- 
2.43.0


From ae4ea242d1a03d8ccedef7104f2bb8dea89c1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 45/52] fix: the nasal of Semitic scripts is the anusvara in
 every target

---
 aksharamukha/ScriptMap/Roman/RomanSemitic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/Roman/RomanSemitic.py b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
index 976e39c..64cbdcc 100644
--- a/aksharamukha/ScriptMap/Roman/RomanSemitic.py
+++ b/aksharamukha/ScriptMap/Roman/RomanSemitic.py
@@ -58,7 +58,7 @@ SinhalaVowelSignMap = [
                   ]
 
 AyogavahaMap = [
-               'ₘ',
+               'ₘ\u02BD',
                'ₘ', ## Check nasalization
                'h\u033D\u02BD'
                ]
-- 
2.43.0


From ac8f0dd3bd772c8af57cc68d18e058021aa35d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 46/52] fix: yeh with hamza of Urdu, Persian and Shahmukhi is
 written in unvocalised scripts

---
 aksharamukha/gimeltra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..d949cee 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -51,6 +51,8 @@ class Transliterator(object):
         if sc not in self.vocalized or to_sc not in self.vocalized:
             t = ucd.normalize('NFD', t)
             t = re.sub(r"(?![\u05C4\u0308])\p{M}","", t)
+            if sc in ['Arab-Fa', 'Arab-Pa', 'Arab-Ur']: # yeh with hamza is the Arabic yeh without it
+                t = t.replace('\u064A', '\u06CC')
 
         logging.debug(f"Pre: {list(t)}")
         return t
-- 
2.43.0


From 22f79dbc8aa9467a75ae0ac7b8c4a6f7bb8fbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 47/52] fix: Hebrew tsadi with geresh before a mater lectionis
 does not take the final form

---
 aksharamukha/ConvertFix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 41b52f8..c5435bf 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -414,6 +414,8 @@ def FixHebr(Strng, Source, reverse = False):
         Strng = re.sub('(וּ)(׳)', r'\2\1', Strng)
         Strng = re.sub('(׳)(\u05b7)', r'\2\1', Strng)
         Strng = re.sub('(׳)(\u05b7)', r'\1', Strng)
+        ## the final form is not final before a mater lectionis
+        Strng = re.sub('ץ׳(?=[א-ת])', 'צ׳', Strng)
     else:
         # swap garesh and short vowels
         vowels = ['ְ','ֱ','ֲ','ֳ','ִ','ֵ','ֶ','ַ','ָ','ֹ','ֺ','ֻ','ׇ','\u05BC']
-- 
2.43.0


From 78d59ad9009d20e8363aa6f6de57698ca41aabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 48/52] fix: om spelled with letters is om only as a word of
 its own, also on the way to romanizations

---
 aksharamukha/Convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index beb17ba..0d3a246 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -242,8 +242,8 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        if sOm == GM.CrunchSymbols(GM.Vowels, Source)[12] + GM.CrunchList('AyogavahaMap', Source)[0]:
-            # spelled o + candrabindu: it is om only as a word of its own (not in Bengali ওঁর)
+        if len(sOm) != 1:
+            # spelled with letters: it is om only as a word of its own (not in Bengali ওঁর)
             other = '[^\\s' + re.escape(string.punctuation + ''.join(GM.CrunchSymbols(GM.Signs, Source)[1:3])) + ']'
             Strng = re.sub('(?<!' + other + ')' + sOm + '(?!' + other + ')', tOm, Strng)
         else:
-- 
2.43.0


From dbe562bf63fce9eb2127f46d739673b96980993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 49/52] fix: oum in Baraha is read back as om

---
 aksharamukha/PreProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index dfba8d5..4912736 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1337,10 +1337,12 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == 'BarahaNorth' or Source == 'BarahaSouth':
         # alternate representations
 
-        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('khx', 'Kx'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
+        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('K', 'kh'), ('khx', 'Kx'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
 
         for alt, norm in alt_baraha:
             Strng = Strng.replace(alt, norm)
+        # ou is au, except in the word oum (om)
+        Strng = re.sub(r'ou(?!(?<![A-Za-z~]ou)m(?![A-Za-z~]))', 'au', Strng)
 
         if Target == 'Tamil':
             Strng = Strng.replace('nx', 'n').replace('n', 'nx').replace('~nx', 'n')
-- 
2.43.0


From b772136bf7b61e34d3d10ad02db1f8f9ad943bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 50/52] fix: converting Baraha to Tamil no longer prints the
 text on standard output

---
 aksharamukha/PreProcess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 4912736..742a221 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1346,7 +1346,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
         if Target == 'Tamil':
             Strng = Strng.replace('nx', 'n').replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From bdabcf60fbbace84ab4597ed3eff88aa50f50c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 51/52] fix: subjoined c, ch and j of Marchen are read as
 letters

---
 aksharamukha/ConvertFix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index c5435bf..84f4551 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -802,15 +802,15 @@ def FixMarchen(Strng, reverse=False):
         Strng = Strng.replace('\u02BF', '')
 
     else:
+        for x, y in zip(subjoinCons, subjoined):
+            Strng = Strng.replace(y, 'ʾ' + x)
+
         tsaSeries = ['\U00011C82', '\U00011C83', '\U00011C84']
         jaSereis =  ['\U00011C76', '\U00011C77', '\U00011C78']
 
         for x, y in zip(tsaSeries, jaSereis):
             Strng = Strng.replace(y, x)
 
-        for x, y in zip(subjoinCons, subjoined):
-            Strng = Strng.replace(y, 'ʾ' + x)
-
     return Strng
 
 def FixMro(Strng, reverse=False):
-- 
2.43.0


From 29d9a9036cb08c13f269cbf1d38c742f98c87812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 52/52] fix: tone marks and signs without counterpart no longer
 swallow the inherent vowel in romanizations

---
 aksharamukha/ConvertFix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 84f4551..493b56a 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -176,6 +176,9 @@ def FixRomanOutput(Strng,Target):
     # Input: क् क्अ क का कृ क्ह ब़् ब़ ब़ो भ् भ भा कि कइ कई
     # Output: kʌ× kʌ×a kʌ kʌā kʌr̥ kʌ×hʌ bʌ̄× bʌ̄ bʌ̄ō bhʌ× bhʌ bhʌā kʌi kʌṿi kʌṿī
 
+    # Remove the token of signs and letters that the target does not have
+    Strng = Strng.replace('\u02C2', '')
+
     Schwa = '\uF000'
     DepV = '\u1E7F'
 
@@ -375,6 +378,9 @@ def FixSemiticOutput(Strng,Source,Target):
 # Fixing the Indic Ouput for the standard corrections
 # Indic Fix are mandatory corrections to the immediate ouput.
 def FixIndicOutput(Strng,Source,Target):
+    # Remove the token of signs and letters that the target does not have
+    Strng = Strng.replace('\u02C2', '')
+
     vir = GM.CrunchList('ViramaMap', Target)[0]
 
     Strng = Strng.replace(vir + '_', vir)
-- 
2.43.0

