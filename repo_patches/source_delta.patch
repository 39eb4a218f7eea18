From d060b0cb1dbac51692ba3d538bf1baeaf9e70129 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 01/28] fix: English TN accepts runs of several spaces between
 tokens

---
 tn/english/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..f2dd419 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -82,7 +82,7 @@ class Normalizer(Processor):
 
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
-        separator = pynutil.delete(self.SPACE) | punct
+        separator = pynutil.delete(self.SPACE).plus | punct
         graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
-- 
2.43.0


From 48537292389d43d511e70817de93e9123cddc05f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 02/28] fix: C++ runtime reorders Japanese fraction, measure
 and time tokens like Python

---
 runtime/processor/wetext_token_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.cc b/runtime/processor/wetext_token_parser.cc
index d05dbc7..df2895e 100644
--- a/runtime/processor/wetext_token_parser.cc
+++ b/runtime/processor/wetext_token_parser.cc
@@ -35,7 +35,11 @@ const std::unordered_map<std::string, std::vector<std::string>> ZH_TN_ORDERS = {
     {"money", {"value", "currency"}},
     {"time", {"noon", "hour", "minute", "second"}}};
 const std::unordered_map<std::string, std::vector<std::string>> JA_TN_ORDERS = {
-    {"date", {"year", "month", "day"}}, {"money", {"value", "currency"}}};
+    {"date", {"year", "month", "day"}},
+    {"fraction", {"denominator", "numerator"}},
+    {"measure", {"denominator", "numerator", "value"}},
+    {"money", {"value", "currency"}},
+    {"time", {"noon", "hour", "minute", "second"}}};
 
 const std::unordered_map<std::string, std::vector<std::string>> EN_TN_ORDERS = {
     {"date", {"preserve_order", "text", "day", "month", "year"}},
-- 
2.43.0


From afe940e80f0694dba37ccc85e071994a3fd9352a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 03/28] fix: C++ runtime keeps token fields outside the
 canonical order

---
 runtime/processor/wetext_token_parser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.h b/runtime/processor/wetext_token_parser.h
index 0ef83bf..2ec5f7c 100644
--- a/runtime/processor/wetext_token_parser.h
+++ b/runtime/processor/wetext_token_parser.h
@@ -15,6 +15,7 @@
 #ifndef PROCESSOR_WETEXT_TOKEN_PARSER_H_
 #define PROCESSOR_WETEXT_TOKEN_PARSER_H_
 
+#include <algorithm>
 #include <set>
 #include <string>
 #include <unordered_map>
@@ -49,7 +50,15 @@ struct Token {
     std::string output = name + " {";
     if (orders.count(name) > 0 && (members.count("preserve_order") == 0 ||
                                    members.at("preserve_order") != "true")) {
-      order = orders.at(name);
+      // Fields outside the canonical order follow it in their original order.
+      std::vector<std::string> canonical = orders.at(name);
+      for (const auto& key : order) {
+        if (std::find(canonical.begin(), canonical.end(), key) ==
+            canonical.end()) {
+          canonical.emplace_back(key);
+        }
+      }
+      order = canonical;
     }
 
     for (const auto& key : order) {
-- 
2.43.0


From 5a8453088bd1a60e55a95eeca8bba382283f86a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 04/28] fix: a deeply nested cache manifest counts as corrupt
 instead of raising RecursionError

---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..52f7cab 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -549,7 +549,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, RecursionError, UnicodeError, ValueError):
                 return None
             if not isinstance(manifest, dict):
                 return None
-- 
2.43.0


From a9a5fcf665563b93f97ddd70246b5b94aac54ac6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 05/28] fix: deeply nested bytes in a cache lock file no longer
 break its waiters

---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 52f7cab..4ea730c 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -644,7 +644,7 @@ class CacheBundle:
             if not isinstance(payload, dict):
                 return "non-dict owner payload"
             return repr(payload)
-        except (OSError, UnicodeError, ValueError, TypeError) as error:
+        except (OSError, RecursionError, UnicodeError, ValueError, TypeError) as error:
             return "unreadable owner payload {!r}".format(error)
 
     @staticmethod
-- 
2.43.0


From de9bedebd1fb5cde1e96a8ec51730158ca75824a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 06/28] fix: file contents cannot imitate another file in the
 source fingerprint

---
 tn/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 4ea730c..6f6fda3 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,11 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
+        contents = hashlib.sha256()
         with open(source, "rb") as source_file:
             for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+                contents.update(chunk)
+        digest.update(contents.digest())
     return digest.hexdigest()
 
 
-- 
2.43.0


From 3811acdb7fa1109c8fcade39eda6018bd0eab458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:20 +0000
Subject: [PATCH 07/28] fix: English TN accepts texts of several separated
 punctuation marks

---
 tn/english/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index f2dd419..92d373e 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -83,7 +83,7 @@ class Normalizer(Processor):
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
         separator = pynutil.delete(self.SPACE).plus | punct
-        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct.plus
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
-- 
2.43.0


From ce3d25751ce96f774348ecff76a6b8fa8853bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:25 +0000
Subject: [PATCH 08/28] fix: read Japanese numbers of nine to twelve digits
 whole

---
 tn/japanese/rules/cardinal.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/tn/japanese/rules/cardinal.py b/tn/japanese/rules/cardinal.py
index 4e1d3bb..9ea1528 100644
--- a/tn/japanese/rules/cardinal.py
+++ b/tn/japanese/rules/cardinal.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 from pynini import accep, cross, string_file
-from pynini.lib.pynutil import delete, insert
+from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
 from tn.utils import get_abs_path
@@ -79,8 +79,24 @@ class Cardinal(Processor):
                            | (rmzero + rmpunct + rmzero + ten)
                            | (rmzero + rmpunct + rmzero + rmzero + digit)
                            | rmzero + rmpunct + rmzero**3))
-        # 0-99999999
-        number = digits | ten | hundred | thousand | ten_thousand | hundred_millon
+        # high part of 100,000,000+, with the "," before its last digit like "123,4" in "123,456,789,012"
+        ten_high = teen + insert("十") + rmpunct + (digit | rmzero)
+        tail_high = ten_high | (rmzero + rmpunct + digit) | (rmzero + rmpunct + rmzero)
+        hundred_high = teen + insert("百") + tail_high
+        thousand_high = digit + insert("千") + (hundred_high | (rmzero + tail_high))
+        # 100,000,000-999,999,999,999 with any middle part, e.g. 123,456,789
+        middle = (thousand_prefix | (rmzero + hundred_prefix)
+                  | (rmzero**2 + rmpunct + ten)
+                  | (rmzero**2 + rmpunct + rmzero + digit)) + insert("万")
+        middle |= rmzero**2 + rmpunct + rmzero**2
+        long_number = ((thousand_high | hundred_high | ten_high | digit) + insert("億") + middle +
+                       (thousand
+                        | (rmzero + rmpunct + hundred)
+                        | (rmzero + rmpunct + rmzero + ten)
+                        | (rmzero + rmpunct + rmzero + rmzero + digit)
+                        | rmzero + rmpunct + rmzero**3))
+        # 0-999999999999, but bare digit strings like 123456789 are read digit by digit
+        number = digits | ten | hundred | thousand | ten_thousand | hundred_millon | add_weight(long_number, 0.002)
         self.positive_integer = self.apply_input_processor(number, self.input_normalizer)
         # ±0.0 - ±99999999.99999999
         number = sign.ques + number + (dot + digits.plus).ques
@@ -101,6 +117,7 @@ class Cardinal(Processor):
         room = digits.plus + accep("号室")
         # others like 342388491
         others = digits**8 + digits.plus
+        others |= add_weight(sign + others, 0.001)
 
         self.cardinal = self.apply_input_processor(
             number | percent | ip | phone | ordinal | room | others,
-- 
2.43.0


From c5deef340c7940a9771c56b178bdd9b443aafb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:51 +0000
Subject: [PATCH 09/28] fix: English ITN accepts "oh" for zero in decimals,
 measures, money and clock times

---
 itn/english/rules/decimal.py | 4 ++--
 itn/english/rules/measure.py | 2 +-
 itn/english/rules/money.py   | 2 +-
 itn/english/rules/time.py    | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/itn/english/rules/decimal.py b/itn/english/rules/decimal.py
index 00db369..f2139bc 100644
--- a/itn/english/rules/decimal.py
+++ b/itn/english/rules/decimal.py
@@ -33,8 +33,8 @@ class Decimal(Processor):
         zero = string_file(get_abs_path("english/data/numbers/zero.tsv"))
         ds = delete(" ")
 
-        # fractional part: digit by digit, "o" => 0
-        frac_digit = digit | zero | cross("o", "0")
+        # fractional part: digit by digit, "o" or "oh" => 0
+        frac_digit = digit | zero | cross(union("o", "oh"), "0")
         frac_graph = closure(frac_digit + ds) + frac_digit
 
         self.negative = cross("minus", "-")
diff --git a/itn/english/rules/measure.py b/itn/english/rules/measure.py
index f57a00e..eff9c21 100644
--- a/itn/english/rules/measure.py
+++ b/itn/english/rules/measure.py
@@ -78,7 +78,7 @@ class Measure(Processor):
         # Decimal value (reuse decimal's internal graph for the number)
         decimal_digit = string_file(get_abs_path("english/data/numbers/digit.tsv"))
         decimal_zero = string_file(get_abs_path("english/data/numbers/zero.tsv"))
-        frac_digit = decimal_digit | decimal_zero | cross("o", "0")
+        frac_digit = decimal_digit | decimal_zero | cross(pynini.union("o", "oh"), "0")
         frac_graph = closure(frac_digit + ds) + frac_digit
         decimal_value = cardinal_value + ds + delete("point") + ds + insert(".") + frac_graph
 
diff --git a/itn/english/rules/money.py b/itn/english/rules/money.py
index 6405a65..9ae3f09 100644
--- a/itn/english/rules/money.py
+++ b/itn/english/rules/money.py
@@ -71,7 +71,7 @@ class Money(Processor):
         # "two point five billion dollars"
         digit = string_file(get_abs_path("english/data/numbers/digit.tsv"))
         zero = string_file(get_abs_path("english/data/numbers/zero.tsv"))
-        frac_d = digit | zero | cross("o", "0")
+        frac_d = digit | zero | cross(union("o", "oh"), "0")
         frac = closure(frac_d + ds) + frac_d
         decimal_value = cardinal_graph + ds + delete("point") + ds + insert(".") + frac
         decimal_quantity_graph = (self.tag_field("value", decimal_value) + ds + insert(" ") +
diff --git a/itn/english/rules/time.py b/itn/english/rules/time.py
index 0d1f0de..484ff05 100644
--- a/itn/english/rules/time.py
+++ b/itn/english/rules/time.py
@@ -64,7 +64,7 @@ class Time(Processor):
         self.hour = hour_all | hour_12
         self.hour_to = delete(TO_OR_TILL) + ds + to_hour
         self.minute_oclock = oclock + insert("00")
-        self.minute = delete("o") + ds + graph_min_single | graph_min_double
+        self.minute = delete(union("o", "oh")) + ds + graph_min_single | graph_min_double
         self.minute_past = ((graph_min_single | graph_min_double | graph_min_verbose) + ds + delete("past"))
         self.minute_quarter_to = cross("quarter", "45")
         self.minute_to = (((min_single_raw | min_double_raw) @ minute_to) +
@@ -88,9 +88,9 @@ class Time(Processor):
         graph_hm_suffix = (hour + ds + insert(" ") + self.tag_field("minute", graph_min_double) + suffix + zone_opt)
         # "two thirty" (1-12 only, no suffix)
         graph_hm = hour12 + ds + insert(" ") + self.tag_field("minute", graph_min_double)
-        # "eleven o six pm"
+        # "eleven o six pm" / "eleven oh six pm"
         graph_o_min_suffix = (hour + ds + insert(" ") + self.tag_field("minute",
-                                                                       delete("o") + ds + graph_min_single) + suffix +
+                                                                       delete(union("o", "oh")) + ds + graph_min_single) + suffix +
                               zone_opt)
         # "half past two", "quarter past two", "ten past four"
         graph_past = (self.tag_field("minute", self.minute_past) + ds + insert(" ") + hour)
-- 
2.43.0


From 75b549d3445fa47ba519782b36103f0ce44a829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:51 +0000
Subject: [PATCH 10/28] fix: read English grouped numbers before quantity words
 whole

---
 tn/english/rules/decimal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/decimal.py b/tn/english/rules/decimal.py
index b1f98c6..e7dd0b2 100644
--- a/tn/english/rules/decimal.py
+++ b/tn/english/rules/decimal.py
@@ -73,6 +73,8 @@ class Decimal(Processor):
         cardinal_graph = cardinal.graph_with_and
         cardinal_graph_hundred_component_at_least_one_none_zero_digit = (
             cardinal.graph_hundred_component_at_least_one_none_zero_digit)
+        # 1,200 million
+        grouped = (self.DIGIT - "0") + self.DIGIT**(0, 2) + ("," + self.DIGIT**3).plus
 
         self.graph = cardinal.single_digits_graph.optimize()
 
@@ -89,12 +91,12 @@ class Decimal(Processor):
 
         quantity_w_abbr = get_quantity(
             final_graph_wo_sign,
-            cardinal_graph_hundred_component_at_least_one_none_zero_digit,
+            cardinal_graph_hundred_component_at_least_one_none_zero_digit | (grouped @ cardinal.graph),
             include_abbr=True,
         )
         quantity_wo_abbr = get_quantity(
             final_graph_wo_sign,
-            cardinal_graph_hundred_component_at_least_one_none_zero_digit,
+            cardinal_graph_hundred_component_at_least_one_none_zero_digit | (grouped @ cardinal.graph),
             include_abbr=False,
         )
         self.final_graph_wo_negative_w_abbr = final_graph_wo_sign | quantity_w_abbr
-- 
2.43.0


From 67943e468269b039e7ea4196f041a65a7787e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:57 +0000
Subject: [PATCH 11/28] fix: no "and" before billion and above in English
 readings

---
 tn/english/rules/cardinal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/cardinal.py b/tn/english/rules/cardinal.py
index 6be580a..530d022 100644
--- a/tn/english/rules/cardinal.py
+++ b/tn/english/rules/cardinal.py
@@ -111,8 +111,8 @@ class Cardinal(Processor):
 
         graph_with_and = pynutil.add_weight(graph, 0.00001)
         not_quote = self.NOT_QUOTE.star
-        no_thousand_million = pynini.difference(not_quote,
-                                                not_quote + pynini.union("thousand", "million") + not_quote).optimize()
+        magnitudes = pynini.string_file(get_abs_path("english/data/number/thousand.tsv"))
+        no_thousand_million = pynini.difference(not_quote, not_quote + magnitudes + not_quote).optimize()
         integer = (not_quote +
                    pynutil.add_weight(pynini.cross("hundred ", "hundred and ") + no_thousand_million, -0.0001)).optimize()
 
-- 
2.43.0


From 51170e7f769bf8a9b499077bf5f31948a2ef0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:57 +0000
Subject: [PATCH 12/28] fix: English ITN reads "negative" before decimals like
 "minus"

---
 itn/english/rules/decimal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/decimal.py b/itn/english/rules/decimal.py
index f2139bc..1337b42 100644
--- a/itn/english/rules/decimal.py
+++ b/itn/english/rules/decimal.py
@@ -37,7 +37,7 @@ class Decimal(Processor):
         frac_digit = digit | zero | cross(union("o", "oh"), "0")
         frac_graph = closure(frac_digit + ds) + frac_digit
 
-        self.negative = cross("minus", "-")
+        self.negative = cross("minus", "-") | cross("negative", "-")
         self.integer = self.cardinal.graph
         self.fractional = delete("point") + ds + frac_graph
         optional_negative = closure(self.tag_field("negative", self.negative) + ds + insert(" "), 0, 1)
-- 
2.43.0


From 461d458f192ae00856ac4a353b28fe2d3b5c1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:57 +0000
Subject: [PATCH 13/28] fix: Chinese ITN keeps signs and trailing units of
 standalone numbers together

---
 itn/chinese/rules/cardinal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index f98a2f3..e511cec 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -104,9 +104,11 @@ class Cardinal(Processor):
         # 十/百/千/万
         number_exclude_0_to_9 = teen | tens | hundred | thousand | ten_thousand
         # 兆/亿
-        number_exclude_0_to_9 = (((number_exclude_0_to_9 | digits) + accep("兆") + delete("零").ques).ques +
-                                 ((number_exclude_0_to_9 | digits) + accep("亿") + delete("零").ques).ques +
-                                 number_exclude_0_to_9)
+        below_yi = number_exclude_0_to_9 | digits
+        zhao = (below_yi + accep("兆") + delete("零").ques).ques
+        number_exclude_0_to_9 = zhao + (below_yi + accep("亿") + delete("零").ques).ques + number_exclude_0_to_9
+        # 四十亿零二 => 40亿2
+        number_exclude_0_to_9 |= zhao + below_yi + (accep("兆") | accep("亿")) + delete("零") + digit
         # 负的xxx 1.11, 1.01
         number_exclude_0_to_9 |= (number_exclude_0_to_9 | digits) + (dot + digits.plus).plus
         # 五六万，三五千，六七百，三四十
@@ -142,7 +144,7 @@ class Cardinal(Processor):
                 # 优先转译为 "1234" 而非 "1~2 3~4"
                 cardinal |= add_weight(number, 0.1)
             else:
-                cardinal |= add_weight(number_exclude_0_to_9, 0.1)
+                cardinal |= add_weight(self.number_exclude_0_to_9, 0.1)
         self.cardinal = (cardinal | add_weight(cardinal + (insert(" ") + cardinal).plus, 0.1))
         tagger = self.tag_field("value", self.cardinal)
         self.tagger = self.add_tokens(tagger)
-- 
2.43.0


From 70da6a3d1d3a8d2180f74dc77612c54f0479b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:52 +0000
Subject: [PATCH 14/28] fix: a Chinese decimal is not read as a service number
 and a date

---
 tn/chinese/rules/cardinal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tn/chinese/rules/cardinal.py b/tn/chinese/rules/cardinal.py
index 1241259..c68258d 100644
--- a/tn/chinese/rules/cardinal.py
+++ b/tn/chinese/rules/cardinal.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, cross, string_file
+from pynini import accep, cross, project, string_file
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
@@ -75,6 +75,9 @@ class Cardinal(Processor):
         # cardinal string like 127.0.0.1, used in ID, IP, etc.
         cardinal = digits.plus + (dot + digits.plus)**3
         cardinal |= percent
+        # 12006.3 => 一万二千零六点三, not 120 and a date
+        long_decimal = digits**(5, ...) + dot + digits.plus
+        cardinal |= project(long_decimal, "input") @ number
         # xxxx-xxx-xxx
         cardinal |= digits.plus + (delete("-") + digits.plus)**2
         # xxx-xxxxxxxx
-- 
2.43.0


From 2343c224d08d7b24876432b1e16c2f536944d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:12 +0000
Subject: [PATCH 15/28] fix: Japanese inverse normalization reads two o'clock,
 midnight and 52 minutes or seconds

---
 itn/japanese/data/time/hour.tsv   | 3 ++-
 itn/japanese/data/time/minute.tsv | 2 +-
 itn/japanese/data/time/second.tsv | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/data/time/hour.tsv b/itn/japanese/data/time/hour.tsv
index 39c6325..fee5968 100644
--- a/itn/japanese/data/time/hour.tsv
+++ b/itn/japanese/data/time/hour.tsv
@@ -8,8 +8,9 @@
 八時	8
 九時	9
 零時	0
+〇時	0
 一時	1
-两時	2
+二時	2
 三時	3
 四時	4
 五時	5
diff --git a/itn/japanese/data/time/minute.tsv b/itn/japanese/data/time/minute.tsv
index a60da05..999d0ff 100644
--- a/itn/japanese/data/time/minute.tsv
+++ b/itn/japanese/data/time/minute.tsv
@@ -49,7 +49,7 @@
 四十九分	49
 五十分	50
 五十一分	51
-五二十分	52
+五十二分	52
 五十三分	53
 五十四分	54
 五十五分	55
diff --git a/itn/japanese/data/time/second.tsv b/itn/japanese/data/time/second.tsv
index baf926e..2722fc0 100644
--- a/itn/japanese/data/time/second.tsv
+++ b/itn/japanese/data/time/second.tsv
@@ -49,7 +49,7 @@
 四十九秒	49
 五十秒	50
 五十一秒	51
-五二十秒	52
+五十二秒	52
 五十三秒	53
 五十四秒	54
 五十五秒	55
-- 
2.43.0


From fc5aec4cc1359e4d0f9b943771e898d48837c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:12 +0000
Subject: [PATCH 16/28] fix: minutes before the hour are written with two
 digits

---
 itn/english/data/time/minute_to.tsv | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/itn/english/data/time/minute_to.tsv b/itn/english/data/time/minute_to.tsv
index edab4d5..07ad9fc 100644
--- a/itn/english/data/time/minute_to.tsv
+++ b/itn/english/data/time/minute_to.tsv
@@ -48,12 +48,12 @@
 48	12
 49	11
 50	10
-51	9
-52	8
-53	7
-54	6
-55	5
-56	4
-57	3
-58	2
-59	1
+51	09
+52	08
+53	07
+54	06
+55	05
+56	04
+57	03
+58	02
+59	01
-- 
2.43.0


From eabdb5ce82fb8c4b6dbb2a5a61611e2d42dbfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:12 +0000
Subject: [PATCH 17/28] fix: decades are read as decades (1980s, nineteen
 eighties)

---
 tn/english/rules/date.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..f69d419 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -57,7 +57,7 @@ def get_four_digit_year_graph(deterministic: bool = False):
     graph_ties = get_ties_graph(deterministic)
 
     graph_with_s = ((graph_ties + Processor("tmp").INSERT_SPACE + graph_ties)
-                    | (graph_teen + Processor("tmp").INSERT_SPACE +
+                    | (graph_ties + Processor("tmp").INSERT_SPACE +
                        (ties_graph | pynini.cross("1", "ten")))) + pynutil.delete("0s")
 
     graph_with_s |= ((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred") +
@@ -66,8 +66,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
         pynini.cross("y", "ies") | pynutil.insert("s"),
         "",
         "[EOS]",
-        Processor("tmp").VCHAR,
-    ).star)
+        Processor("tmp").VCHAR.star,
+    ))
 
     graph = graph_ties + Processor("tmp").INSERT_SPACE + graph_ties
     graph |= (graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred")
@@ -77,7 +77,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
     thousand_graph |= (graph_digit + Processor("tmp").INSERT_SPACE + pynini.cross("000", "thousand") +
                        pynutil.delete(" ").ques + pynini.accep("s"))
 
-    graph |= graph_with_s
+    # two thousands rather than twenty hundreds
+    graph |= pynutil.add_weight(graph_with_s, 0.0001)
     if deterministic:
         graph = plurals._priority_union(thousand_graph, graph, Processor("tmp").VCHAR.star)
     else:
-- 
2.43.0


From 1344b769ac5e315214f1115c92d7807219aeec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 18/28] fix: only one hour, minute or second is singular
 (21:00:12, twenty one hours)

---
 tn/english/rules/time.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/tn/english/rules/time.py b/tn/english/rules/time.py
index 8aeee1c..7efaed7 100644
--- a/tn/english/rules/time.py
+++ b/tn/english/rules/time.py
@@ -118,17 +118,15 @@ class Time(Processor):
         optional_zone = (self.DELETE_SPACE + self.INSERT_SPACE + zone).ques
         second = (pynutil.delete("seconds:") + self.DELETE_SPACE + pynutil.delete('"') +
                   (self.minute_graph | self.minute_zero_graph) + pynutil.delete('"'))
-        graph_hms = (hour + pynutil.insert(" hours ") + self.DELETE_SPACE + minute + pynutil.insert(" minutes and ") +
-                     self.DELETE_SPACE + second + pynutil.insert(" seconds") + optional_suffix + optional_zone)
-        graph_hms @= pynini.cdrewrite(
-            pynutil.delete("o ")
-            | pynini.cross("one minutes", "one minute")
-            | pynini.cross("one seconds", "one second")
-            | pynini.cross("one hours", "one hour"),
-            pynini.union(" ", "[BOS]"),
-            "",
-            self.VCHAR.star,
-        )
+        delete_o = pynutil.delete("o ").ques
+
+        def count(number, unit):
+            one = number @ (delete_o + pynini.accep("one")) + pynutil.insert(" " + unit)
+            more = number @ (delete_o + (self.VCHAR.plus - "one" - ("o " + self.VCHAR.plus))) + pynutil.insert(" " + unit + "s")
+            return one | more
+
+        graph_hms = (count(hour, "hour") + self.INSERT_SPACE + self.DELETE_SPACE + count(minute, "minute") +
+                     pynutil.insert(" and ") + self.DELETE_SPACE + count(second, "second") + optional_suffix + optional_zone)
         graph = hour + self.DELETE_SPACE + self.INSERT_SPACE + minute_nonzero + optional_suffix + optional_zone
         graph |= (hour + self.DELETE_SPACE + zero_minute + self.INSERT_SPACE + pynutil.insert("o'clock") + optional_zone)
         graph |= (hour + self.DELETE_SPACE + zero_minute + self.DELETE_SPACE + self.INSERT_SPACE + suffix + optional_zone)
-- 
2.43.0


From 6b4b6fd1d0681ef7af9316e6f81394d70bf14477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 19/28] fix: a whole amount written with zero decimals keeps
 its quantity in front of the currency ($2.0 million)

---
 tn/english/rules/money.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d46eeb0..d07001e 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -108,7 +108,7 @@ class Money(Processor):
                       trimmed_fraction + pynutil.delete('"'))
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
         money_decimal = (decimal.integer
-                         | decimal.integer + decimal.quantity
+                         | decimal.integer + zero_fraction.ques + decimal.quantity
                          | optional_integer + fractional + decimal.optional_quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
-- 
2.43.0


From 9f19eee0599d8002c521838a644fde3a81485dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 20/28] fix: a percentage in hundreds of millions keeps its
 magnitude word in front of the percent sign

---
 itn/chinese/rules/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itn/chinese/rules/measure.py b/itn/chinese/rules/measure.py
index 7edf092..9dd6ac5 100644
--- a/itn/chinese/rules/measure.py
+++ b/itn/chinese/rules/measure.py
@@ -45,8 +45,9 @@ class Measure(Processor):
 
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 百分之三十, 百分三十, 百分之百，百分之三十到四十, 百分之三十到百分之五十五
+        percentage = self.cardinal.number + accep("亿").ques
         percent = ((sign + delete("的").ques).ques + delete("百分") + delete("之").ques +
-                   ((self.cardinal.number + (to + self.cardinal.number).ques)
+                   ((percentage + (to + percentage).ques)
                     | ((self.cardinal.number + to).ques + cross("百", "100"))) + insert("%"))
 
         # 十千米每小时 => 10km/h, 十一到一百千米每小时 => 11~100km/h
-- 
2.43.0


From 949bdfab19d5085cd2a7219797ecb5ab2633b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:34 +0000
Subject: [PATCH 21/28] =?UTF-8?q?fix:=20the=20second=20day=20of=20a=20mont?=
 =?UTF-8?q?h=20is=20=E4=BA=8C=E6=97=A5=20(2008=E5=B9=B41=E6=9C=882?=
 =?UTF-8?q?=E6=97=A5)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/chinese/rules/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index 6bb26a1..83d6dfe 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -46,7 +46,7 @@ class Measure(Processor):
         prefix = number + (rmspace + units).ques + to
         measure = prefix.ques + number + rmspace + units
 
-        for unit in ["两", "月", "号"]:
+        for unit in ["两", "月", "日", "号"]:
             measure @= self.build_rule(cross("两" + unit, "二" + unit), l="[BOS]")
             measure @= self.build_rule(cross("到两" + unit, "到二" + unit), r="[EOS]")
 
-- 
2.43.0


From 2d34afee4f060654769db9eceb93f5097eca9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:58 +0000
Subject: [PATCH 22/28] fix: the full-width full stop is punctuation, so
 removing punctuation removes it

---
 itn/japanese/data/char/punctuations_ja.tsv | 1 +
 tn/chinese/data/char/punctuations_zh.tsv   | 1 +
 tn/japanese/data/char/punctuations_ja.tsv  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/itn/japanese/data/char/punctuations_ja.tsv b/itn/japanese/data/char/punctuations_ja.tsv
index 169cc4d..8787c26 100644
--- a/itn/japanese/data/char/punctuations_ja.tsv
+++ b/itn/japanese/data/char/punctuations_ja.tsv
@@ -14,6 +14,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
diff --git a/tn/chinese/data/char/punctuations_zh.tsv b/tn/chinese/data/char/punctuations_zh.tsv
index e587a96..f1f555a 100644
--- a/tn/chinese/data/char/punctuations_zh.tsv
+++ b/tn/chinese/data/char/punctuations_zh.tsv
@@ -46,6 +46,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
diff --git a/tn/japanese/data/char/punctuations_ja.tsv b/tn/japanese/data/char/punctuations_ja.tsv
index 169cc4d..8787c26 100644
--- a/tn/japanese/data/char/punctuations_ja.tsv
+++ b/tn/japanese/data/char/punctuations_ja.tsv
@@ -14,6 +14,7 @@
 ＋
 ，
 －
+．
 ／
 ：
 ；
-- 
2.43.0


From eaf042ac4aeca81ab1ac873b66a390fab8e23672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:58 +0000
Subject: [PATCH 23/28] fix: full-width square brackets become half-width like
 other full-width characters

---
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 ++
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 ++
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..6d95de5 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -93,3 +93,5 @@
 Ｙ	Y
 ｚ	z
 Ｚ	Z
+［	\[
+］	\]
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..6d95de5 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -93,3 +93,5 @@
 Ｙ	Y
 ｚ	z
 Ｚ	Z
+［	\[
+］	\]
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..6d95de5 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -93,3 +93,5 @@
 Ｙ	Y
 ｚ	z
 Ｚ	Z
+［	\[
+］	\]
-- 
2.43.0


From c4bbc51e8a81e9e10a96146fdfd279774944005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:04 +0000
Subject: [PATCH 24/28] fix: the opening double angle bracket is punctuation in
 Japanese too

---
 itn/japanese/data/char/punctuations_ja.tsv | 1 +
 tn/japanese/data/char/punctuations_ja.tsv  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/itn/japanese/data/char/punctuations_ja.tsv b/itn/japanese/data/char/punctuations_ja.tsv
index 8787c26..5b9eb51 100644
--- a/itn/japanese/data/char/punctuations_ja.tsv
+++ b/itn/japanese/data/char/punctuations_ja.tsv
@@ -39,6 +39,7 @@
 ､
 、
 〃
+《
 》
 「
 」
diff --git a/tn/japanese/data/char/punctuations_ja.tsv b/tn/japanese/data/char/punctuations_ja.tsv
index 8787c26..5b9eb51 100644
--- a/tn/japanese/data/char/punctuations_ja.tsv
+++ b/tn/japanese/data/char/punctuations_ja.tsv
@@ -39,6 +39,7 @@
 ､
 、
 〃
+《
 》
 「
 」
-- 
2.43.0


From f3124d968ae310fb606da1e0049f75210dfcaf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:36 +0000
Subject: [PATCH 25/28] fix: the full-width number sign becomes half-width (#
 starts a comment in string files)

---
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 6d95de5..764f05e 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 6d95de5..764f05e 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 6d95de5..764f05e 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From 1d00a5189796002d1067a6c89a86665e7662ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:02 +0000
Subject: [PATCH 26/28] =?UTF-8?q?fix:=20=E3=83=BC,=20=E3=83=B4,=20?=
 =?UTF-8?q?=E3=80=87=20and=20=E3=80=85=20belong=20to=20the=20Japanese=20ch?=
 =?UTF-8?q?aracter=20set?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/char/common_chinese_char.tsv   | 4 +++-
 itn/japanese/data/char/hiragana_and_katakana.tsv | 4 +++-
 tn/japanese/data/char/common_chinese_char.tsv    | 4 +++-
 tn/japanese/data/char/hiragana_and_katakana.tsv  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/itn/japanese/data/char/common_chinese_char.tsv b/itn/japanese/data/char/common_chinese_char.tsv
index f047193..b7ff9ba 100644
--- a/itn/japanese/data/char/common_chinese_char.tsv
+++ b/itn/japanese/data/char/common_chinese_char.tsv
@@ -2499,4 +2499,6 @@
 悔
 福
 瞬
-滋
\ No newline at end of file
+滋
+〇
+々
\ No newline at end of file
diff --git a/itn/japanese/data/char/hiragana_and_katakana.tsv b/itn/japanese/data/char/hiragana_and_katakana.tsv
index d09d8a1..018d76b 100644
--- a/itn/japanese/data/char/hiragana_and_katakana.tsv
+++ b/itn/japanese/data/char/hiragana_and_katakana.tsv
@@ -157,4 +157,6 @@
 っ
 ゃ
 ゅ
-ょ
\ No newline at end of file
+ょ
+ヴ
+ー
\ No newline at end of file
diff --git a/tn/japanese/data/char/common_chinese_char.tsv b/tn/japanese/data/char/common_chinese_char.tsv
index f047193..b7ff9ba 100644
--- a/tn/japanese/data/char/common_chinese_char.tsv
+++ b/tn/japanese/data/char/common_chinese_char.tsv
@@ -2499,4 +2499,6 @@
 悔
 福
 瞬
-滋
\ No newline at end of file
+滋
+〇
+々
\ No newline at end of file
diff --git a/tn/japanese/data/char/hiragana_and_katakana.tsv b/tn/japanese/data/char/hiragana_and_katakana.tsv
index d09d8a1..018d76b 100644
--- a/tn/japanese/data/char/hiragana_and_katakana.tsv
+++ b/tn/japanese/data/char/hiragana_and_katakana.tsv
@@ -157,4 +157,6 @@
 っ
 ゃ
 ゅ
-ょ
\ No newline at end of file
+ょ
+ヴ
+ー
\ No newline at end of file
-- 
2.43.0


From 14089bab4de14608e08ac168ff4055fd1027d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:04 +0000
Subject: [PATCH 27/28] fix: removing interjections keeps Japanese text when
 the list is empty

---
 itn/japanese/rules/postprocessor.py | 3 ++-
 tn/japanese/rules/postprocessor.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/itn/japanese/rules/postprocessor.py b/itn/japanese/rules/postprocessor.py
index 1ea5681..32cc811 100644
--- a/itn/japanese/rules/postprocessor.py
+++ b/itn/japanese/rules/postprocessor.py
@@ -32,7 +32,8 @@ class PostProcessor(Processor):
         ja_charset_ext = string_file(get_abs_path("japanese/data/char/common_chinese_char.tsv"))
 
         processor = self.build_rule("")
-        if remove_interjections:
+        # an empty list deletes nothing (the rule for it would accept nothing)
+        if remove_interjections and blacklist.num_states() > 0:
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
diff --git a/tn/japanese/rules/postprocessor.py b/tn/japanese/rules/postprocessor.py
index 8898f32..3c02238 100644
--- a/tn/japanese/rules/postprocessor.py
+++ b/tn/japanese/rules/postprocessor.py
@@ -36,7 +36,8 @@ class PostProcessor(Processor):
             full2half = string_file(get_abs_path("japanese/data/char/fullwidth_to_halfwidth.tsv"))
             processor @= self.build_rule(full2half)
 
-        if remove_interjections:
+        # an empty list deletes nothing (the rule for it would accept nothing)
+        if remove_interjections and blacklist.num_states() > 0:
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
-- 
2.43.0


From 91c4b82a74884766fcd5ad4ea6dc4b5e0b2b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:16 +0000
Subject: [PATCH 28/28] =?UTF-8?q?fix:=20=E5=85=AD=E5=8D=83=E3=82=AD?=
 =?UTF-8?q?=E3=83=AD=E3=83=A1=E3=83=BC=E3=83=88=E3=83=AB=20is=20six=20thou?=
 =?UTF-8?q?sand=20kilometres=20in=20every=20setting?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/measure/unit_en.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/measure/unit_en.tsv b/itn/japanese/data/measure/unit_en.tsv
index 4de2ba3..755741f 100644
--- a/itn/japanese/data/measure/unit_en.tsv
+++ b/itn/japanese/data/measure/unit_en.tsv
@@ -1,7 +1,7 @@
 華氏	f
 摂氏	c
 キロメートル	km
-千キロメートル	km
+千キロメートル	km	0.1
 メートル	m
 センチ	cm
 インチ	インチ
-- 
2.43.0

