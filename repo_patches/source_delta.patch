From 36c13672a627a7f291b85f90ad3f49837b0171cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 01/39] fix: keep Japanese text when the interjection blacklist
 is empty

---
 tn/japanese/rules/postprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/postprocessor.py b/tn/japanese/rules/postprocessor.py
index 8898f32..9f5b2f9 100644
--- a/tn/japanese/rules/postprocessor.py
+++ b/tn/japanese/rules/postprocessor.py
@@ -36,7 +36,8 @@ class PostProcessor(Processor):
             full2half = string_file(get_abs_path("japanese/data/char/fullwidth_to_halfwidth.tsv"))
             processor @= self.build_rule(full2half)
 
-        if remove_interjections:
+        # Rewriting with an empty list would reject every non-ASCII text.
+        if remove_interjections and blacklist.num_states() > 0:
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
-- 
2.43.0


From 6da1836cf04d2b7ab14d59e04cbd46789d65995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 02/39] fix: accept runs of spaces between English TN tokens

---
 tn/english/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..b3c43cd 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -82,7 +82,7 @@ class Normalizer(Processor):
 
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
-        separator = pynutil.delete(self.SPACE) | punct
+        separator = pynutil.delete(self.SPACE.plus) | punct
         graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
-- 
2.43.0


From d48c0f3585eb283d508c51edc482b7186522679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 03/39] fix: no "and" after hundred before billion and trillion
 in English TN

---
 tn/english/rules/cardinal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tn/english/rules/cardinal.py b/tn/english/rules/cardinal.py
index 6be580a..ecfa78d 100644
--- a/tn/english/rules/cardinal.py
+++ b/tn/english/rules/cardinal.py
@@ -111,10 +111,9 @@ class Cardinal(Processor):
 
         graph_with_and = pynutil.add_weight(graph, 0.00001)
         not_quote = self.NOT_QUOTE.star
-        no_thousand_million = pynini.difference(not_quote,
-                                                not_quote + pynini.union("thousand", "million") + not_quote).optimize()
-        integer = (not_quote +
-                   pynutil.add_weight(pynini.cross("hundred ", "hundred and ") + no_thousand_million, -0.0001)).optimize()
+        scales = pynini.union("thousand", "million", "billion", "trillion")
+        no_scale = pynini.difference(not_quote, not_quote + scales + not_quote).optimize()
+        integer = (not_quote + pynutil.add_weight(pynini.cross("hundred ", "hundred and ") + no_scale, -0.0001)).optimize()
 
         no_hundred = pynini.difference(self.VCHAR.star, not_quote + pynini.accep("hundred") + not_quote).optimize()
         integer |= (not_quote +
-- 
2.43.0


From 1c46173c2fb08df5cbcc6d3e0361b35531162dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 04/39] fix: rebuild the cache when its manifest nests too
 deeply to parse

---
 tn/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..29809ef 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -549,7 +549,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, UnicodeError, ValueError, RecursionError):
                 return None
             if not isinstance(manifest, dict):
                 return None
@@ -644,7 +644,7 @@ class CacheBundle:
             if not isinstance(payload, dict):
                 return "non-dict owner payload"
             return repr(payload)
-        except (OSError, UnicodeError, ValueError, TypeError) as error:
+        except (OSError, UnicodeError, ValueError, TypeError, RecursionError) as error:
             return "unreadable owner payload {!r}".format(error)
 
     @staticmethod
-- 
2.43.0


From 4b14b2ad1f2acb7ddc5c7acae4e2478249c7c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 05/39] fix: reject a FIFO in a cache bundle without blocking
 on it

---
 tn/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 29809ef..f6322f0 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -273,7 +273,8 @@ def _read_regular_file(path, expected_size=None, max_size=None):
     if stat.S_ISLNK(before.st_mode) or _is_reparse_point(before) or not stat.S_ISREG(before.st_mode):
         raise CachePathError("cache file is not a regular non-link file: {}".format(path))
 
-    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    # O_NONBLOCK keeps a FIFO from blocking the open; regular files ignore it.
+    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0) | getattr(os, "O_NONBLOCK", 0)
     descriptor = os.open(os.fspath(path), flags)
     try:
         return _read_open_regular(
@@ -288,7 +289,8 @@ def _read_regular_file(path, expected_size=None, max_size=None):
 
 
 def _read_regular_at(directory_fd, basename, expected_size=None, max_size=None):
-    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    # O_NONBLOCK keeps a FIFO from blocking the open; regular files ignore it.
+    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0) | getattr(os, "O_NONBLOCK", 0)
     try:
         descriptor = os.open(basename, flags, dir_fd=directory_fd)
     except OSError as error:
-- 
2.43.0


From d9f22ec66bee240192cd23ecb668e9634e57502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 06/39] =?UTF-8?q?fix:=20read=20the=20currency=20code=20EUR?=
 =?UTF-8?q?=20as=20=E6=AC=A7=E5=85=83?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/data/money/code.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/chinese/data/money/code.tsv b/tn/chinese/data/money/code.tsv
index e03ff19..a7667f1 100644
--- a/tn/chinese/data/money/code.tsv
+++ b/tn/chinese/data/money/code.tsv
@@ -6,7 +6,7 @@ CAD$	加元
 CAD	加元
 CHF	瑞士法郎
 CNY	人民币
-EUR	欧元成员国
+EUR	欧元
 GBP	英镑
 HK＄	港元
 HKD	港元
-- 
2.43.0


From b9a00cfd25ceb42aa23baea9202c327a4befec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 07/39] =?UTF-8?q?fix:=20read=20the=20unit=20ds=20as=20?=
 =?UTF-8?q?=E5=88=86=E7=A7=92=20(decisecond)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/data/measure/units_en.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/chinese/data/measure/units_en.tsv b/tn/chinese/data/measure/units_en.tsv
index 24bf3ce..9306f22 100644
--- a/tn/chinese/data/measure/units_en.tsv
+++ b/tn/chinese/data/measure/units_en.tsv
@@ -13,7 +13,7 @@ db	分贝
 dm3	立方分米
 dm³	立方分米
 dm	分米
-ds	毫秒
+ds	分秒
 ft	英尺
 °f	华氏度
 °F	华氏度
-- 
2.43.0


From 47cdce335c101d4b3d1f37f3a1c12809dfcf24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 08/39] =?UTF-8?q?fix:=20treat=20the=20full-width=20full=20?=
 =?UTF-8?q?stop=20=EF=BC=8E=20as=20punctuation?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/data/char/punctuations_zh.tsv | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tn/chinese/data/char/punctuations_zh.tsv b/tn/chinese/data/char/punctuations_zh.tsv
index e587a96..f1f555a 100644
--- a/tn/chinese/data/char/punctuations_zh.tsv
+++ b/tn/chinese/data/char/punctuations_zh.tsv
@@ -46,6 +46,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
-- 
2.43.0


From edf5552d638b3552a214587e051d3bd1a11401d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 09/39] fix: escape # in the full-width tables, where pynini
 reads it as a comment

---
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From c94e4fa269c371b57384f2e8965e47a8b2e34ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 10/39] fix: escape # in the English tables, where pynini reads
 it as a comment

---
 itn/english/data/electronic/symbols.tsv | 2 +-
 itn/english/data/whitelist.tsv          | 4 ++--
 tn/english/data/electronic/symbol.tsv   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/itn/english/data/electronic/symbols.tsv b/itn/english/data/electronic/symbols.tsv
index 5be8da8..093867a 100644
--- a/itn/english/data/electronic/symbols.tsv
+++ b/itn/english/data/electronic/symbols.tsv
@@ -3,7 +3,7 @@
 -	hyphen
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent sign
 &	ampersand
diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index c7201ae..698cd51 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -385,7 +385,7 @@ XML	x m l
 Zen 2	zen two
 Zen 3	zen three
 Zen 4	zen four
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
diff --git a/tn/english/data/electronic/symbol.tsv b/tn/english/data/electronic/symbol.tsv
index 5e8973f..b25385a 100644
--- a/tn/english/data/electronic/symbol.tsv
+++ b/tn/english/data/electronic/symbol.tsv
@@ -2,7 +2,7 @@
 -	dash
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent
 &	ampersand
-- 
2.43.0


From 706aee80947605bd8e334826bcff1e00c0baea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 11/39] =?UTF-8?q?fix:=20list=20=E3=80=8A=20and=20=EF=BC=8E?=
 =?UTF-8?q?=20as=20Japanese=20punctuation?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/japanese/data/char/punctuations_ja.tsv | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/japanese/data/char/punctuations_ja.tsv b/tn/japanese/data/char/punctuations_ja.tsv
index 169cc4d..5b9eb51 100644
--- a/tn/japanese/data/char/punctuations_ja.tsv
+++ b/tn/japanese/data/char/punctuations_ja.tsv
@@ -14,6 +14,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
@@ -38,6 +39,7 @@
 ､
 、
 〃
+《
 》
 「
 」
-- 
2.43.0


From 8a4443b136d49fb3fbab1b309ef7c8024517ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 12/39] =?UTF-8?q?fix:=20know=20=E3=83=BC,=20=E3=83=B4,=20?=
 =?UTF-8?q?=E3=80=85=20and=20the=20rarer=20kana=20as=20Japanese=20characte?=
 =?UTF-8?q?rs?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/japanese/data/char/common_chinese_char.tsv   |  3 ++-
 tn/japanese/data/char/hiragana_and_katakana.tsv | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/tn/japanese/data/char/common_chinese_char.tsv b/tn/japanese/data/char/common_chinese_char.tsv
index f047193..163ff81 100644
--- a/tn/japanese/data/char/common_chinese_char.tsv
+++ b/tn/japanese/data/char/common_chinese_char.tsv
@@ -2499,4 +2499,5 @@
 悔
 福
 瞬
-滋
\ No newline at end of file
+滋
+々
diff --git a/tn/japanese/data/char/hiragana_and_katakana.tsv b/tn/japanese/data/char/hiragana_and_katakana.tsv
index d09d8a1..97605dd 100644
--- a/tn/japanese/data/char/hiragana_and_katakana.tsv
+++ b/tn/japanese/data/char/hiragana_and_katakana.tsv
@@ -157,4 +157,15 @@
 っ
 ゃ
 ゅ
-ょ
\ No newline at end of file
+ょ
+ー
+ヴ
+ゔ
+ゎ
+ヮ
+ヵ
+ヶ
+ゐ
+ヰ
+ゑ
+ヱ
-- 
2.43.0


From fb442c47ec23919e97441cb6e3b9537b0ac001f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 13/39] fix: read commas in Japanese numbers of ten hundred
 millions and more

---
 tn/japanese/rules/cardinal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/cardinal.py b/tn/japanese/rules/cardinal.py
index 4e1d3bb..80f4bb3 100644
--- a/tn/japanese/rules/cardinal.py
+++ b/tn/japanese/rules/cardinal.py
@@ -72,8 +72,16 @@ class Cardinal(Processor):
                          | (rmzero + rmpunct + rmzero + ten)
                          | (rmzero + rmpunct + rmzero + rmzero + digit)
                          | rmzero + rmpunct + rmzero**3))
+        # hundred million prefix containing "," like "1,0" in "1,000,000,000"
+        # or "100,0" in "100,000,000,000"
+        ten_prefix = teen + insert("十") + rmpunct + (digit | rmzero)
+        hundred_prefix = teen + insert("百") + (ten_prefix | (rmzero + rmpunct + digit) | rmzero + rmpunct + rmzero)
+        thousand_prefix = (digit + insert("千") + (hundred_prefix
+                                                  | (rmzero + ten_prefix)
+                                                  | (rmzero**2 + rmpunct + digit)
+                                                  | rmzero**2 + rmpunct + rmzero))
         # 100,000,000+
-        hundred_millon = ((thousand_prefix | hundred_prefix | ten | digit) + insert("億") + rmzero**2 + rmpunct + rmzero**2 +
+        hundred_millon = ((thousand_prefix | hundred_prefix | ten_prefix | digit) + insert("億") + rmzero**2 + rmpunct + rmzero**2 +
                           (thousand
                            | (rmzero + rmpunct + hundred)
                            | (rmzero + rmpunct + rmzero + ten)
-- 
2.43.0


From 091c3242668bdf30379f00ed58edafb2ac68efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 14/39] fix: read HK$ as Hong Kong dollars, not as HK and US
 dollars

---
 tn/chinese/data/money/code.tsv  | 1 +
 tn/japanese/data/money/code.tsv | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tn/chinese/data/money/code.tsv b/tn/chinese/data/money/code.tsv
index a7667f1..b9e57b3 100644
--- a/tn/chinese/data/money/code.tsv
+++ b/tn/chinese/data/money/code.tsv
@@ -9,6 +9,7 @@ CNY	人民币
 EUR	欧元
 GBP	英镑
 HK＄	港元
+HK$	港元
 HKD	港元
 INR	印度卢比
 J￥	日元
diff --git a/tn/japanese/data/money/code.tsv b/tn/japanese/data/money/code.tsv
index 8f7fa9e..5915ae7 100644
--- a/tn/japanese/data/money/code.tsv
+++ b/tn/japanese/data/money/code.tsv
@@ -9,6 +9,7 @@ CNY	人民元
 EUR	ユーロ
 GBP	ポンド
 HK＄	香港ドル
+HK$	香港ドル
 HKD	香港ドル
 INR	インドルピー
 J￥	円
-- 
2.43.0


From f67bced09baaa8a28eaacf3fd5f13eceecf55877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 15/39] =?UTF-8?q?fix:=20write=20=E4=B8=89=E7=82=B9?=
 =?UTF-8?q?=E4=B8=80=E4=BA=94=E4=B8=87=20as=203.15=E4=B8=87,=20not=20as=20?=
 =?UTF-8?q?3.1=2050000?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/rules/cardinal.py | 5 +++--
 itn/chinese/rules/money.py    | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index f98a2f3..9a324b1 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -124,8 +124,9 @@ class Cardinal(Processor):
 
         # cardinal string like 127.0.0.1, used in ID, IP, etc.
         cardinal = digits.plus + (dot + digits.plus).plus
-        # float number like 1.11
-        cardinal |= number + dot + digits.plus
+        # float number like 1.11, 三点一五万 => 3.15万
+        self.scaled_decimal = number + dot + digits.plus + (accep("万") | accep("亿") | accep("兆"))
+        cardinal |= number + dot + digits.plus | self.scaled_decimal
         # cardinal string like 110 or 12306 or 13125617878, used in phone,
         #   340621199806051223, used in ID card
         idcard_last_char = digits | "X" | "x"
diff --git a/itn/chinese/rules/money.py b/itn/chinese/rules/money.py
index 5ff30de..4ac1a43 100644
--- a/itn/chinese/rules/money.py
+++ b/itn/chinese/rules/money.py
@@ -37,6 +37,8 @@ class Money(Processor):
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 七八美元 => $7~8
         number |= digit + insert("~") + digit
+        # 三点一五万美元 => $3.15万
+        number |= self.cardinal.scaled_decimal
         # 三千三百八十元五毛八分 => ¥3380.58
         self.value = number
         self.currency = symbol | add_weight(code, 1)
-- 
2.43.0


From e15d90c821ae4407970c8b3c9fdae3b28643118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:45 +0000
Subject: [PATCH 16/39] =?UTF-8?q?fix:=20write=20=E5=85=86=E8=B5=AB?=
 =?UTF-8?q?=E5=85=B9=20as=20mhz=20and=20=E4=B8=89=E7=82=B9=E4=BA=94?=
 =?UTF-8?q?=E4=BA=BF=E5=85=AC=E9=87=8C=20as=203.5=E4=BA=BFkm=20in=20Chines?=
 =?UTF-8?q?e=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/rules/measure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/itn/chinese/rules/measure.py b/itn/chinese/rules/measure.py
index 7edf092..61ca07b 100644
--- a/itn/chinese/rules/measure.py
+++ b/itn/chinese/rules/measure.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file, union
+from pynini import accep, cross, difference, string_file, union
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from itn.chinese.rules.cardinal import Cardinal
@@ -41,7 +41,10 @@ class Measure(Processor):
         to = cross("到", "~") | cross("到百分之", "~")
 
         units = add_weight((accep("亿") | accep("兆") | accep("万")), -0.5).ques + units_zh
-        units |= add_weight((cross("亿", "00M") | cross("兆", "T") | cross("万", "W")), -0.5).ques + (add_weight(units_en, -1.0))
+        # The units with 兆 (兆赫兹 => mhz) come before 兆 => T.
+        scale = (add_weight(cross("亿", "00M") | cross("万", "W"), -0.5) | add_weight(accep("亿"), -0.4)
+                 | add_weight(cross("兆", "T"), 0.5))
+        units |= scale.ques + (add_weight(units_en, -1.0))
 
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 百分之三十, 百分三十, 百分之百，百分之三十到四十, 百分之三十到百分之五十五
@@ -51,6 +54,8 @@ class Measure(Processor):
 
         # 十千米每小时 => 10km/h, 十一到一百千米每小时 => 11~100km/h
         measure = number + (to + number).ques + units
+        # 亿 => 00M only appends zeros to an integer, 三点五亿千米 => 3.5亿km
+        measure @= difference(self.VSIGMA, self.VSIGMA + accep(".") + self.DIGIT.plus + accep("00M") + self.VSIGMA)
 
         # XXX: 特殊case处理, ignore enable_standalone_number
         # digit + union("百", "千", "万") + digit + unit
-- 
2.43.0


From dcc7d323493ec67a7fca7ac7c4ebcde8d43dfaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 17/39] =?UTF-8?q?fix:=20keep=20the=20sign=20with=20standal?=
 =?UTF-8?q?one=20numbers=20in=20Chinese=20ITN=20(=E8=B4=9F=E4=B8=80?=
 =?UTF-8?q?=E5=8D=83=E4=B8=A4=E7=99=BE=20=3D>=20-1200)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index 9a324b1..a0cac26 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -143,7 +143,7 @@ class Cardinal(Processor):
                 # 优先转译为 "1234" 而非 "1~2 3~4"
                 cardinal |= add_weight(number, 0.1)
             else:
-                cardinal |= add_weight(number_exclude_0_to_9, 0.1)
+                cardinal |= add_weight(self.number_exclude_0_to_9, 0.1)
         self.cardinal = (cardinal | add_weight(cardinal + (insert(" ") + cardinal).plus, 0.1))
         tagger = self.tag_field("value", self.cardinal)
         self.tagger = self.add_tokens(tagger)
-- 
2.43.0


From 6cb8fbf7c30e0de3b6138ab334a90613fef0426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 18/39] =?UTF-8?q?fix:=20write=20=E4=B8=80=E5=85=86?=
 =?UTF-8?q?=E4=BA=8C=E4=BA=BF=20as=20one=20number=20in=20Chinese=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/rules/cardinal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index a0cac26..91a3d30 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -84,7 +84,10 @@ class Cardinal(Processor):
         # 个/十/百/千/万
         number = digits | teen | tens | hundred | thousand | ten_thousand
         # 兆/亿
+        # 一兆零二亿 => 1兆2亿
+        trillion = number + accep("兆") + delete("零").ques + number + accep("亿")
         number = ((number + accep("兆") + delete("零").ques).ques + (number + accep("亿") + delete("零").ques).ques + number)
+        number |= trillion
         # 负的xxx 1.11, 1.01
         number = sign.ques + number + (dot + digits.plus).ques
         # 五六万 => 5~6万，三五千 => 3000~5000，六七百 => 600~700，三四十 => 30~40, 三四十亿 => 30~40亿
@@ -107,6 +110,7 @@ class Cardinal(Processor):
         number_exclude_0_to_9 = (((number_exclude_0_to_9 | digits) + accep("兆") + delete("零").ques).ques +
                                  ((number_exclude_0_to_9 | digits) + accep("亿") + delete("零").ques).ques +
                                  number_exclude_0_to_9)
+        number_exclude_0_to_9 |= trillion
         # 负的xxx 1.11, 1.01
         number_exclude_0_to_9 |= (number_exclude_0_to_9 | digits) + (dot + digits.plus).plus
         # 五六万，三五千，六七百，三四十
-- 
2.43.0


From 0cd5c6a96f63ba47038113386eda8e7ac554b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 19/39] fix: do not add :00 to a time without seconds in
 Chinese ITN

---
 itn/chinese/rules/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/itn/chinese/rules/time.py b/itn/chinese/rules/time.py
index 2af3084..586c099 100644
--- a/itn/chinese/rules/time.py
+++ b/itn/chinese/rules/time.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 from pynini import string_file
-from pynini.lib.pynutil import delete, insert
+from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
 from itn.utils import get_abs_path
@@ -42,7 +42,8 @@ class Time(Processor):
         hour = self.tag_field("hour", self.hour)
         minute = insert(" ") + self.tag_field("minute", self.minute_tagger)
         minute_zero_no_fen = insert(" ") + self.tag_field("minute", self.minute_zero_no_fen)
-        second = (insert(" ") + self.tag_field("second", self.second)).ques
+        # no second is preferred over an empty one, which reads as 00
+        second = add_weight(insert(" ") + self.tag_field("second", self.second), 0.001).ques
 
         tagger = ((self.tag_field("noon", self.noon) + insert(" ")).ques + hour + minute + second)
         # "X点零Y" without "分" requires noon prefix to disambiguate from decimal
-- 
2.43.0


From 3c372249e0bb43d9baf3c357ccd9aaa26a1a59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 20/39] fix: keep the words around an address out of it in
 English ITN (please visit nvidia.com today)

---
 itn/english/rules/electronic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/itn/english/rules/electronic.py b/itn/english/rules/electronic.py
index a1aa98d..9dcedf7 100644
--- a/itn/english/rules/electronic.py
+++ b/itn/english/rules/electronic.py
@@ -33,10 +33,12 @@ class Electronic(Processor):
         symbols = invert(string_file(get_abs_path("english/data/electronic/symbols.tsv")))
 
         char = self.ALPHA | digit | zero
-        word = add_weight(closure(self.ALPHA, 2), 0.1)
-        token = char | symbols | word
-        first_token = char | difference(word, accep("dot"))
-        component = first_token + closure(ds + token)
+        word = add_weight(difference(closure(self.ALPHA, 2), accep("dot")), 0.1)
+        server = string_file(get_abs_path("english/data/electronic/server_name.tsv"))
+        piece = char + closure(ds + char) | word | server
+        # Words next to each other are not one name unless nothing else fits: each
+        # costs a little more than a word outside (please visit nvidia dot com today).
+        component = piece + closure(add_weight(ds + piece, 51) | closure(ds + symbols, 1) + (ds + piece).ques)
 
         dot = cross("dot", ".")
         domain = component + (ds + dot + ds + component).plus
-- 
2.43.0


From c89dacc938cba097e363c058dda468d705a195be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:21 +0000
Subject: [PATCH 21/39] fix: pad the minute of 'fifty one to one a m' in
 English ITN (12:09)

---
 itn/english/data/time/minute_to.tsv | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/itn/english/data/time/minute_to.tsv b/itn/english/data/time/minute_to.tsv
index edab4d5..07ad9fc 100644
--- a/itn/english/data/time/minute_to.tsv
+++ b/itn/english/data/time/minute_to.tsv
@@ -48,12 +48,12 @@
 48	12
 49	11
 50	10
-51	9
-52	8
-53	7
-54	6
-55	5
-56	4
-57	3
-58	2
-59	1
+51	09
+52	08
+53	07
+54	06
+55	05
+56	04
+57	03
+58	02
+59	01
-- 
2.43.0


From f4560c87620f9f5bf0d8c5074922091589654257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:21 +0000
Subject: [PATCH 22/39] fix: write sixteen digits as one card number in English
 ITN

---
 itn/english/rules/telephone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/itn/english/rules/telephone.py b/itn/english/rules/telephone.py
index f994f83..c148c29 100644
--- a/itn/english/rules/telephone.py
+++ b/itn/english/rules/telephone.py
@@ -116,6 +116,8 @@ class Telephone(Processor):
         cc = seq @ cc_format
         self.number_parts["credit_card"] = cc
         graph |= optional_cc + number_field(cc, "credit_card")
+        # sixteen digits are one card number, not a country code and fourteen digits
+        graph |= add_weight(number_field(cc, "credit_card"), -0.01)
 
         # serial: mixed alpha+digits, at least one digit, length >= 3
         # Exclude "a" as first char to avoid "a thirty six" -> "a36"
-- 
2.43.0


From f83bbfe9aeb0f68db65b530f19bc8fc1824a7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 23/39] =?UTF-8?q?fix:=20convert=20=E4=BA=8C=E6=99=82=20in?=
 =?UTF-8?q?=20Japanese=20ITN=20(hour=20table=20said=20=E4=B8=A4=E6=99=82)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/hour.tsv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/japanese/data/time/hour.tsv b/itn/japanese/data/time/hour.tsv
index 39c6325..144ad35 100644
--- a/itn/japanese/data/time/hour.tsv
+++ b/itn/japanese/data/time/hour.tsv
@@ -1,5 +1,5 @@
 一時	1
-两時	2
+二時	2
 三時	3
 四時	4
 五時	5
@@ -9,7 +9,7 @@
 九時	9
 零時	0
 一時	1
-两時	2
+二時	2
 三時	3
 四時	4
 五時	5
-- 
2.43.0


From 69b9433f6594a36cf6265cb8526927f3d2ef4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 24/39] =?UTF-8?q?fix:=20keep=20the=20leading=20sign=20of?=
 =?UTF-8?q?=20a=20spoken=20Japanese=20fraction=20in=20front=20(=E3=83=9E?=
 =?UTF-8?q?=E3=82=A4=E3=83=8A=E3=82=B9=E4=B8=89=E5=88=86=E3=81=AE=E4=BA=8C?=
 =?UTF-8?q?=20=3D>=20-2/3)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/fraction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/rules/fraction.py b/itn/japanese/rules/fraction.py
index 31b1762..81a5da6 100644
--- a/itn/japanese/rules/fraction.py
+++ b/itn/japanese/rules/fraction.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 from pynini import accep, closure, cross, string_file
-from pynini.lib.pynutil import delete, insert
+from pynini.lib.pynutil import add_weight, delete, insert
 
 from itn.japanese.rules.cardinal import Cardinal
 from tn.processor import Processor
@@ -54,8 +54,10 @@ class Fraction(Processor):
         )
 
         # fraction
-        fraction = ((self.tag_field("sign", self.sign) + insert(" ")).ques + self.tag_field("denominator", self.denominator) +
-                    insert(" ") + self.tag_field("numerator", self.numerator))
+        # the cardinals may be signed too: a leading sign belongs to the fraction, マイナス三分の二 => -2/3 instead of 2/-3
+        sign = (self.tag_field("sign", self.sign) + insert(" ")) | add_weight(accep(""), 0.001)
+        fraction = (sign + self.tag_field("denominator", self.denominator) + insert(" ") +
+                    self.tag_field("numerator", self.numerator))
         self.tagger = self.add_tokens(fraction).optimize()
 
     def build_verbalizer(self):
-- 
2.43.0


From 4e17314d8b0977db80e6076000aa18f8582f3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:51 +0000
Subject: [PATCH 25/39] fix: allow zeros in the first group of a spoken IP
 address (Japanese ITN)

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index df8bc7e..db7d6d6 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -116,7 +116,7 @@ class Cardinal(Processor):
         self.big_integer = number | big_integer
 
         # cardinal string like 127.0.0.1, used in ID, IP, etc.
-        cardinal = digit.plus + (dot + digits.plus).plus
+        cardinal = digits.plus + (dot + digits.plus).plus
         # float number like 1.11
         cardinal |= decimal
         # cardinal string like 110 or 12306 or 13125617878, used in phone
-- 
2.43.0


From 50416c5bde569d2fe65178598366e7580fa3e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:39 +0000
Subject: [PATCH 26/39] =?UTF-8?q?fix:=20write=20=E3=83=97=E3=83=A9?=
 =?UTF-8?q?=E3=82=B9=E3=83=9E=E3=82=A4=E3=83=8A=E3=82=B9=E4=B8=80=E5=84=84?=
 =?UTF-8?q?=20as=20=C2=B11=E5=84=84,=20not=20+-1=E5=84=84=20(Japanese=20IT?=
 =?UTF-8?q?N)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index db7d6d6..41b2259 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -132,7 +132,9 @@ class Cardinal(Processor):
             else:
                 # 一 => 一   四 => 四   一秒 => 1秒   一万二 => 一万二 二三 => 23
                 number_two_plus = sign.ques + (
-                    (digits + digits.plus) | teen | tens | hundred | thousand | ten_thousand | big_integer)
+                    (digits + digits.plus) | teen | tens | hundred | thousand | ten_thousand)
+                # already signed, so that プラスマイナス is ± and not +-
+                number_two_plus |= big_integer
 
                 cardinal |= number_two_plus
 
-- 
2.43.0


From 2bda683b297d50bceedf2cef975c7bc44f55f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:45 +0000
Subject: [PATCH 27/39] =?UTF-8?q?fix:=20keep=20the=20sign=20with=20the=20n?=
 =?UTF-8?q?umber=20in=20Japanese=20ITN=20measures=20and=20amounts=20(?=
 =?UTF-8?q?=E3=83=9E=E3=82=A4=E3=83=8A=E3=82=B9=E7=99=BE=E5=8D=81=E3=82=A2?=
 =?UTF-8?q?=E3=83=B3=E3=83=9A=E3=82=A2=20was=20-10010A)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index 41b2259..dab0a16 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -100,7 +100,7 @@ class Cardinal(Processor):
         # ±0~99999999
         number = (sign.ques + positive_integer).optimize()
         self.number = number
-        self.number_exclude_0_to_9 = teen | tens | hundred | thousand | ten_thousand
+        self.number_exclude_0_to_9 = sign.ques + (teen | tens | hundred | thousand | ten_thousand)
 
         # ±0.0~99999999.99...
         decimal = sign.ques + positive_integer + dot + digits.plus
-- 
2.43.0


From 78e0021f221364e14c2b0acc24c5ab56605246dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 28/39] fix: give the C++ runtime the Japanese TN token orders
 of Python

---
 runtime/processor/wetext_token_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.cc b/runtime/processor/wetext_token_parser.cc
index d05dbc7..df2895e 100644
--- a/runtime/processor/wetext_token_parser.cc
+++ b/runtime/processor/wetext_token_parser.cc
@@ -35,7 +35,11 @@ const std::unordered_map<std::string, std::vector<std::string>> ZH_TN_ORDERS = {
     {"money", {"value", "currency"}},
     {"time", {"noon", "hour", "minute", "second"}}};
 const std::unordered_map<std::string, std::vector<std::string>> JA_TN_ORDERS = {
-    {"date", {"year", "month", "day"}}, {"money", {"value", "currency"}}};
+    {"date", {"year", "month", "day"}},
+    {"fraction", {"denominator", "numerator"}},
+    {"measure", {"denominator", "numerator", "value"}},
+    {"money", {"value", "currency"}},
+    {"time", {"noon", "hour", "minute", "second"}}};
 
 const std::unordered_map<std::string, std::vector<std::string>> EN_TN_ORDERS = {
     {"date", {"preserve_order", "text", "day", "month", "year"}},
-- 
2.43.0


From 80da99e4733d575e2c11a62b9711957ee0dbb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 29/39] fix: keep fields outside the canonical order in the C++
 token parser

---
 runtime/processor/wetext_token_parser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.h b/runtime/processor/wetext_token_parser.h
index 0ef83bf..b212460 100644
--- a/runtime/processor/wetext_token_parser.h
+++ b/runtime/processor/wetext_token_parser.h
@@ -15,6 +15,7 @@
 #ifndef PROCESSOR_WETEXT_TOKEN_PARSER_H_
 #define PROCESSOR_WETEXT_TOKEN_PARSER_H_
 
+#include <algorithm>
 #include <set>
 #include <string>
 #include <unordered_map>
@@ -49,7 +50,15 @@ struct Token {
     std::string output = name + " {";
     if (orders.count(name) > 0 && (members.count("preserve_order") == 0 ||
                                    members.at("preserve_order") != "true")) {
-      order = orders.at(name);
+      // fields outside the canonical order come last, as in Python
+      std::vector<std::string> canonical = orders.at(name);
+      for (const auto& key : order) {
+        if (std::find(canonical.begin(), canonical.end(), key) ==
+            canonical.end()) {
+          canonical.emplace_back(key);
+        }
+      }
+      order = canonical;
     }
 
     for (const auto& key : order) {
-- 
2.43.0


From 3af2a11c7141bc3152b36795b2d850a52ea3c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:47 +0000
Subject: [PATCH 30/39] fix: C++ processor takes the language from the file
 name, not a directory

The parse type was chosen by the first known prefix found anywhere in the
tagger's path, so files in a directory such as zh_tn_models were reordered
as another language.
---
 runtime/processor/wetext_processor.cc | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/runtime/processor/wetext_processor.cc b/runtime/processor/wetext_processor.cc
index 96077b1..7907740 100644
--- a/runtime/processor/wetext_processor.cc
+++ b/runtime/processor/wetext_processor.cc
@@ -14,6 +14,8 @@
 
 #include "processor/wetext_processor.h"
 
+#include <utility>
+
 #include "utils/wetext_log.h"
 
 namespace wetext {
@@ -24,19 +26,21 @@ Processor::Processor(const std::string& tagger_path,
   compiler_ = std::make_shared<StringCompiler<StdArc>>();
   printer_ = std::make_shared<StringPrinter<StdArc>>();
 
-  if (tagger_path.find("zh_tn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kZH_TN;
-  } else if (tagger_path.find("zh_itn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kZH_ITN;
-  } else if (tagger_path.find("en_tn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kEN_TN;
-  } else if (tagger_path.find("en_itn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kEN_ITN;
-  } else if (tagger_path.find("ja_tn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kJA_TN;
-  } else if (tagger_path.find("ja_itn_") != tagger_path.npos) {
-    parse_type_ = ParseType::kJA_ITN;
-  } else {
+  // The file name decides, so the prefix that comes last in the path is taken:
+  // a directory may carry the name of another language.
+  const std::pair<const char*, ParseType> prefixes[] = {
+      {"zh_tn_", ParseType::kZH_TN}, {"zh_itn_", ParseType::kZH_ITN},
+      {"en_tn_", ParseType::kEN_TN}, {"en_itn_", ParseType::kEN_ITN},
+      {"ja_tn_", ParseType::kJA_TN}, {"ja_itn_", ParseType::kJA_ITN}};
+  size_t last = std::string::npos;
+  for (const auto& prefix : prefixes) {
+    size_t pos = tagger_path.rfind(prefix.first);
+    if (pos != std::string::npos && (last == std::string::npos || pos > last)) {
+      last = pos;
+      parse_type_ = prefix.second;
+    }
+  }
+  if (last == std::string::npos) {
     LOG(FATAL) << "Invalid fst prefix, prefix should contain"
                << " either \"_tn_\" or \"_itn_\".";
   }
-- 
2.43.0


From 225d04e0157a54e53e7e62bcf58f483cb457eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:58 +0000
Subject: [PATCH 31/39] fix: accept quotes, backslashes and any white space in
 English ITN

A word with " or \ had no path, nor had a text with a tab, newline or
no-break space at its ends: normalize() raised.
---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/word.py         | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..526f38b 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,9 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
-from pynini.lib.pynutil import insert
-
 from tn.processor import Processor
 
 
@@ -26,6 +23,5 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
+        tagger = self.tag_field("value", self.NOT_SPACE.plus)
         self.tagger = self.add_tokens(tagger)
-- 
2.43.0


From ed7b44479e987071092eddcc9625e52b8ed1a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:58 +0000
Subject: [PATCH 32/39] =?UTF-8?q?fix:=20keep=20what=20no=20English=20TN=20?=
 =?UTF-8?q?rule=20reads=20instead=20of=20raising=20(5=E2=82=AC,=20[5],=201?=
 =?UTF-8?q?=3D,=20=E6=95=B05)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/english/rules/word.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tn/english/rules/word.py b/tn/english/rules/word.py
index 4cedf05..ee38045 100644
--- a/tn/english/rules/word.py
+++ b/tn/english/rules/word.py
@@ -38,8 +38,10 @@ class Word(Processor):
         default_graph = difference(self.NOT_SPACE, punct.project("input"))
         symbols_to_exclude = union("$", "€", "₩", "£", "¥", "#", "%") | self.DIGIT
         self.char = difference(default_graph, symbols_to_exclude)
-        graph = (pynutil.insert('v: "') + self.char.plus + pynutil.insert('"')).optimize()
-        final_graph = self.add_tokens(graph)
+        graph = pynutil.insert('v: "') + self.char.plus + pynutil.insert('"')
+        # anything else without a space, if no rule reads it, e.g. 5€
+        graph |= pynutil.add_weight(self.tag_field("v", self.NOT_SPACE.plus), 10000)
+        final_graph = self.add_tokens(graph.optimize())
         self.tagger = final_graph.optimize()
 
     def build_verbalizer(self):
@@ -47,6 +49,5 @@ class Word(Processor):
         Finite state transducer for verbalizing word
             e.g. w { v: "sleep" } -> sleep
         """
-        graph = pynutil.delete("v: ") + pynutil.delete('"') + self.char.plus + pynutil.delete('"')
-        final_graph = self.delete_tokens(graph)
+        final_graph = self.delete_tokens(self.verbalize_field("v", self.NOT_SPACE.plus))
         self.verbalizer = final_graph.optimize()
-- 
2.43.0


From 1b0f3ac80d781f5615ac33dfc4a6f772d418dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:43 +0000
Subject: [PATCH 33/39] fix: accept a text of nothing but white space in
 English TN

---
 tn/english/normalizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index b3c43cd..b61ddf7 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -84,6 +84,8 @@ class Normalizer(Processor):
         token = pynini.closure(punct) + classify + pynini.closure(punct)
         separator = pynutil.delete(self.SPACE.plus) | punct
         graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        # nothing but white space
+        graph |= punctuation.add_tokens(pynutil.insert('v: "') + self.SPACE.plus + pynutil.insert('"'))
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
@@ -94,4 +96,5 @@ class Normalizer(Processor):
         # Only classify tokens need INSERT_SPACE for inter-word spacing.
         verbalizer = (classify + (punct.plus | pynutil.add_weight(self.INSERT_SPACE, 0.0001))
                       | punct + (punct.plus | self.DELETE_SPACE)).star
+        verbalizer |= punctuation.delete_tokens(pynutil.delete('v: "') + self.DELETE_SPACE + pynutil.delete('"'))
         self.verbalizer = verbalizer @ self.build_rule(pynutil.delete(" "), r="[EOS]")
-- 
2.43.0


From c4326232aa55961b3b05843cf2576814d51e659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:56 +0000
Subject: [PATCH 34/39] fix: separate the words of approximations, weekday
 ranges and numbered items in English TN

---
 tn/english/rules/range.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index d256f17..2b2a34b 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -44,10 +44,10 @@ class Range(Processor):
         week = pynini.string_file(get_abs_path("english/data/date/week.tsv"))
         delete_space = pynutil.delete(" ").ques
 
-        approx = pynini.cross("~", "approximately")
+        approx = pynini.cross("~", "approximately ")
 
         # WEEK
-        week_graph = week + delete_space + (pynini.cross("-", " to ") | approx) + delete_space + week
+        week_graph = week + delete_space + pynini.cross(pynini.union("-", "~"), " to ") + delete_space + week
 
         # TIME
         time_graph = time + delete_space + pynini.cross("-", " to ") + delete_space + time
@@ -96,7 +96,7 @@ class Range(Processor):
 
             # supports "No. 12" -> "Number 12"
             range_graph |= ((pynini.cross(pynini.union("NO", "No"), "Number") | pynini.cross("no", "number")) +
-                            pynini.union(". ", " ").ques + cardinal)
+                            (pynini.cross(". ", " ") | pynini.accep(" ") | pynutil.insert(" ")) + cardinal)
 
             for x in ["/", " / "]:
                 range_graph |= cardinal + (pynini.cross(x, " divided by ") + cardinal).plus
-- 
2.43.0


From c6de1ac885b58e45fac99b00b344bc5dcce85345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:25 +0000
Subject: [PATCH 35/39] fix: read the numbers before squared and cubed in
 English TN (12^2 left its digits unread)

---
 tn/english/rules/serial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/serial.py b/tn/english/rules/serial.py
index fafd048..aa0e7c1 100644
--- a/tn/english/rules/serial.py
+++ b/tn/english/rules/serial.py
@@ -38,6 +38,8 @@ class Serial(Processor):
         num_graph |= pynini.compose(self.DIGIT**(1, 5), cardinal.graph).optimize()
         num_graph |= pynini.compose(pynini.accep("0") + pynini.closure(self.DIGIT), cardinal.single_digits_graph).optimize()
 
+        number = num_graph
+
         symbols_graph = pynini.string_file(get_abs_path("english/data/whitelist/symbol.tsv")).optimize()
         symbols_graph |= pynini.cross("#", "hash")
         num_graph |= symbols_graph
@@ -65,8 +67,12 @@ class Serial(Processor):
         serial_graph = pynini.compose(pynini.difference(self.VSIGMA, pynini.project(self.ordinal.graph, "input")),
                                       serial_graph).optimize()
 
-        serial_graph |= (pynini.closure(self.NOT_SPACE, 1) +
-                         (pynini.cross("^2", " squared") | pynini.cross("^3", " cubed")).optimize())
+        # read the numbers of the base, too: 12^2 -> twelve squared
+        not_digit = pynini.difference(self.NOT_SPACE, self.DIGIT)
+        base_graph = (pynini.closure(not_digit) + pynini.closure(number + pynini.closure(not_digit, 1)) +
+                      pynini.closure(number, 0, 1))
+        base_graph = pynini.compose(pynini.closure(self.NOT_SPACE, 1), base_graph)
+        serial_graph |= base_graph + (pynini.cross("^2", " squared") | pynini.cross("^3", " cubed"))
 
         serial_graph = (pynini.closure((serial_graph | num_graph | alphas) + delimiter) + serial_graph +
                         pynini.closure(delimiter + (serial_graph | num_graph | alphas)))
-- 
2.43.0


From bc191cf03ad394e50d1bfe15db2fa8e9440c672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:25 +0000
Subject: [PATCH 36/39] fix: recognise addresses with numbered streets in
 English TN (2788 5th Ave, Santa Clara, CA 95051)

---
 tn/english/rules/measure.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/tn/english/rules/measure.py b/tn/english/rules/measure.py
index 2128420..eaf45f1 100644
--- a/tn/english/rules/measure.py
+++ b/tn/english/rules/measure.py
@@ -202,13 +202,8 @@ class Measure(Processor):
                 units: "address"
                 integer: "2788 San Tomas Expy, Santa Clara, CA 95051"
         """
-        ordinal = self.ordinal
-        ordinal_verbalizer = ordinal.graph_v
-        ordinal_tagger = ordinal.graph
-        ordinal_num = pynini.compose(
-            pynutil.insert('integer: "') + ordinal_tagger + pynutil.insert('"'),
-            ordinal_verbalizer,
-        )
+        # 5th -> fifth
+        ordinal_num = pynini.compose(self.ordinal.graph, self.ordinal.suffix)
 
         address_num = self.DIGIT**(1, 2) @ cardinal.graph_hundred_component_at_least_one_none_zero_digit
         address_num += self.INSERT_SPACE + self.DIGIT**2 @ (pynini.cross("0", "zero ").ques +
-- 
2.43.0


From bd00c4348ac4102ab06f9040ca3779c40b5aafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:25 +0000
Subject: [PATCH 37/39] fix: read four-digit decades in English TN (1980s was
 one thousand nine hundred and eighty S)

---
 tn/english/rules/date.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..7c870e7 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -57,17 +57,14 @@ def get_four_digit_year_graph(deterministic: bool = False):
     graph_ties = get_ties_graph(deterministic)
 
     graph_with_s = ((graph_ties + Processor("tmp").INSERT_SPACE + graph_ties)
-                    | (graph_teen + Processor("tmp").INSERT_SPACE +
+                    | ((graph_teen | pynini.cross("20", "twenty")) + Processor("tmp").INSERT_SPACE +
                        (ties_graph | pynini.cross("1", "ten")))) + pynutil.delete("0s")
 
     graph_with_s |= ((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred") +
                      pynutil.delete("s"))
-    graph_with_s = (graph_with_s @ pynini.cdrewrite(
-        pynini.cross("y", "ies") | pynutil.insert("s"),
-        "",
-        "[EOS]",
-        Processor("tmp").VCHAR,
-    ).star)
+    plural = Processor("tmp").VCHAR.star + pynini.cross("y", "ies")
+    plural |= Processor("tmp").VCHAR.star + (Processor("tmp").VCHAR - "y") + pynutil.insert("s")
+    graph_with_s = graph_with_s @ plural
 
     graph = graph_ties + Processor("tmp").INSERT_SPACE + graph_ties
     graph |= (graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred")
@@ -77,7 +74,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
     thousand_graph |= (graph_digit + Processor("tmp").INSERT_SPACE + pynini.cross("000", "thousand") +
                        pynutil.delete(" ").ques + pynini.accep("s"))
 
-    graph |= graph_with_s
+    # rather two thousands than twenty hundreds
+    graph |= pynutil.add_weight(graph_with_s, 0.0001)
     if deterministic:
         graph = plurals._priority_union(thousand_graph, graph, Processor("tmp").VCHAR.star)
     else:
-- 
2.43.0


From 32a9580564e3ddada3f3de9ed1e1e48d868e9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:25 +0000
Subject: [PATCH 38/39] fix: write nineteen tens as 1910s in English ITN (it
 was 19100s)

---
 itn/english/rules/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/date.py b/itn/english/rules/date.py
index 7ddb7ab..f7b0396 100644
--- a/itn/english/rules/date.py
+++ b/itn/english/rules/date.py
@@ -99,7 +99,7 @@ class Date(Processor):
 
         # Decades: "nineteen eighties" => 1980s
         decade_suffix = closure(self.ALPHA, 1) + (cross("ies", "y") | delete("s"))
-        decade_word = pynini.compose(decade_suffix, ties | cross("ten", "10"))
+        decade_word = pynini.compose(decade_suffix, ties | cross("ten", "1"))
         self.year_decade = (teen | two_digit) + ds + decade_word + insert("0s")
         graph_decade = self.tag_field("year", self.year_decade) + po
 
-- 
2.43.0


From e1e16f344fb2fbe848d59026dc786bcdc9f01989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:25 +0000
Subject: [PATCH 39/39] =?UTF-8?q?fix:=20let=20a=20comma=20join=20only=20gr?=
 =?UTF-8?q?oups=20of=20three=20digits=20in=20Chinese=20TN=20measures=20(3?=
 =?UTF-8?q?=EF=BC=8C5=E4=B8=AA=20was=20read=20thirty-five)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/rules/measure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index 6bb26a1..83ffc7c 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file
+from pynini import accep, cross, difference, string_file
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.chinese.rules.cardinal import Cardinal
@@ -39,7 +39,9 @@ class Measure(Processor):
         to = cross("-", "到") | cross("~", "到") | accep("到")
 
         number = self.cardinal.number
-        strip_comma = self.build_rule(delete(",") | delete("，"), self.DIGIT, self.DIGIT)
+        # 1,000，not 3，5
+        not_digit = difference(self.VCHAR, self.DIGIT) | "[EOS]"
+        strip_comma = self.build_rule(delete(",") | delete("，"), self.DIGIT, self.DIGIT**3 + not_digit)
         number = strip_comma @ number
         number @= self.build_rule(cross("二", "两"), "[BOS]", "[EOS]")
         # 1-11个，1个-11个
-- 
2.43.0

