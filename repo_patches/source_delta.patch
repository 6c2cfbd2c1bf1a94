From e6a809c31d23dcc1a419ba539f207d9ef568e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 01/19] fix: return None for numeric characters that are not
 decimal digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isnumeric() accepts characters such as superscripts, vulgar fractions and
CJK numerals that int() cannot read, so parse_number("²") raised ValueError.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..01b8003 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,7 +297,7 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
+    if input_string.strip().isdecimal():
         return int(input_string)
 
     if language is None:
-- 
2.43.0


From 287e9f133986229106638eaf08064f3a6cf9a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 02/19] fix: reject a number that starts with a conjunction in
 parse_number

The tokenizer puts empty strings around separators, so checking the index of
the token let "-" and " and" through as 0 and " and five" as 5.
---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 01b8003..853721c 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,12 +311,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_started = False
+    for token in normalized_tokens:
+        if not token.strip():
+            continue
+        if _is_cardinal_token(token, lang_data):
+            number_started = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if _is_skip_token(token, lang_data) and number_started:
             continue
         return None
+    if not number_started:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From 587eeb6141fa2409015a421c27962a414146ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 03/19] fix: start a new number when hundred or mil repeats

"hundred hundred" became 10000 and "mil mil" 1000000, unlike
"two hundred hundred" (200 100) and "million million".
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 853721c..fadd223 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -81,7 +81,7 @@ def _check_validity(
     elif current_token in lang_data.big_powers_of_ten:
         # current token is a "big power of ten"
         power_of_ten = lang_data.big_powers_of_ten[current_token]
-        if power_of_ten < current_grp_value:
+        if power_of_ten <= current_grp_value:
             return False
         if (
             total_value != 0
-- 
2.43.0


From 07a1e1124241e0c5da0edc75cddc97c8402198d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 04/19] fix: multiply an explicit zero by the multiplier that
 follows it

"zero million" was parsed as 1000000.
---
 number_parser/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index fadd223..0573454 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -146,6 +146,7 @@ def _build_number(token_list, lang_data):
             for skip_token in used_skip_tokens:
                 value_list.append(skip_token)
             previous_power_of_10 = None
+            previous_token = None
 
         if token in lang_data.unit_and_direct_numbers:
             current_grp_value += lang_data.unit_and_direct_numbers[token]
@@ -158,7 +159,10 @@ def _build_number(token_list, lang_data):
 
         elif token in lang_data.big_powers_of_ten:
             power_of_ten = lang_data.big_powers_of_ten[token]
-            if current_grp_value == 0:
+            if current_grp_value == 0 and not (
+                previous_token and lang_data.all_numbers[previous_token] == 0
+            ):
+                # a multiplier on its own stands for one of its kind
                 current_grp_value = 1
 
             current_grp_value *= power_of_ten
-- 
2.43.0


From a3d29f16d0f09421a5c52f60fdf729da082a195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 05/19] =?UTF-8?q?fix:=20Spanish=20decillones=20is=20the=20?=
 =?UTF-8?q?plural=20of=20decill=C3=B3n,=2010**60?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

It had the value of undecillones.
---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From eec241f53204f262e1948ef0c3ca5937d67ce5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 06/19] fix: keep the Ukrainian hundreds when the language data
 is regenerated

Five spellings of 500 and 900 were only in the generated uk.py, so running
write_complete_language_data.py lost them.
---
 number_parser/data/uk.py                               | 10 +++++-----
 .../supplementary_translation_data/uk.json             |  5 +++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/number_parser/data/uk.py b/number_parser/data/uk.py
index 27aa423..a840c29 100644
--- a/number_parser/data/uk.py
+++ b/number_parser/data/uk.py
@@ -80,18 +80,18 @@ info = {
         "двісті": 200,
         "триста": 300,
         "чотириста": 400,
-        "п'ятсот": 500,
-        "пʼятсот": 500,
         "п'ятисот": 500,
+        "п'ятсот": 500,
         "пʼятисот": 500,
-        "пятсот": 500,
+        "пʼятсот": 500,
         "пятисот": 500,
+        "пятсот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "девятсот": 900,
         "дев'ятсот": 900,
-        "девʼятсот": 900
+        "девʼятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяч": 1000,
diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..f49128e 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,9 +81,14 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
+        "девятсот": 900,
         "дев'ятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
-- 
2.43.0


From 9f72b0137f54585185b6bfbb13a69e97b9d7a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 07/19] fix: read and write the language data as UTF-8 whatever
 the locale

---
 number_parser_scripts/write_complete_language_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..6ba62df 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -144,7 +144,7 @@ def write_complete_data():
 
         language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
         ordered_language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
-        with open(full_source_path, "r") as source:
+        with open(full_source_path, "r", encoding="utf-8") as source:
             data = json.load(source)
             try:
                 requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
@@ -161,7 +161,7 @@ def write_complete_data():
                         val = val.replace("\xad", "")
                         _extract_information(key, val, language_data)
 
-        with open(full_supplementary_path, "r") as supplementary_data:
+        with open(full_supplementary_path, "r", encoding="utf-8") as supplementary_data:
             data = json.load(supplementary_data)
             for keys in REQUIRED_NUMBERS_DATA:
                 language_data[keys].update(data[keys])
@@ -184,7 +184,7 @@ def write_complete_data():
         translation_data = re.sub(r"\bfalse\b", "False", translation_data)
         translation_data = re.sub(r"\btrue\b", "True", translation_data)
         out_text = "info = " + translation_data + "\n"
-        with open(full_target_path, "w+") as target_file:
+        with open(full_target_path, "w+", encoding="utf-8") as target_file:
             target_file.write(out_text)
 
 
-- 
2.43.0


From 70eda687db3ef771edccb57bae1d884f509cb21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 08/19] fix: recognise number words written with combining
 accents
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

\W matches combining marks, so a decomposed "millón" or a stressed "пя́ть"
was split in the middle of the word and not understood.
---
 number_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 0573454..1016fe5 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -183,7 +183,8 @@ def _tokenize(input_string, language):
     input_string = input_string.replace("\xad", "")
     if language in RE_BUG_LANGUAGES:
         return re.split(r"(\s+)", input_string)
-    return re.split(r"(\W)", input_string)
+    # combining accents (decomposed letters, stress marks) belong to their word
+    return re.split(r"((?![\u0300-\u036f])\W)", input_string)
 
 
 def _strip_accents(word):
-- 
2.43.0


From cd584e870b7a0ddce5203effb33a350130d7846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 09/19] fix: convert Hindi numbers that are followed by
 punctuation
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Hindi text was split on white space only, so the number in "एक, दो" kept its
comma and was not recognised.
---
 number_parser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 1016fe5..b76c3bc 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -182,7 +182,10 @@ def _tokenize(input_string, language):
     """Breaks string on any non-word character."""
     input_string = input_string.replace("\xad", "")
     if language in RE_BUG_LANGUAGES:
-        return re.split(r"(\s+)", input_string)
+        # \W also matches Devanagari vowel signs and joiners, which are part of words
+        return re.split(
+            r"((?![\u0900-\u0963\u0966-\u097f\u200c\u200d])\W)", input_string
+        )
     # combining accents (decomposed letters, stress marks) belong to their word
     return re.split(r"((?![\u0300-\u036f])\W)", input_string)
 
-- 
2.43.0


From 3cf8d26f39404ded994a6ec56106b524567291f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 10/19] fix: do not drop Hindi vowel signs as if they were
 accents
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"तरह" (manner) lost the difference to "तेरह" (13) and was converted.
---
 number_parser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index b76c3bc..b1ac2eb 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -5,6 +5,8 @@ from importlib import import_module
 SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
 RE_BUG_LANGUAGES = ["hi"]
+# These are combining characters but not accents: they tell words apart.
+DEVANAGARI_VOWEL_SIGNS = "\u0941\u0942\u0943\u0944\u0945\u0946\u0947\u0948"
 
 
 class LanguageData:
@@ -195,7 +197,7 @@ def _strip_accents(word):
     return "".join(
         char
         for char in unicodedata.normalize("NFD", word)
-        if unicodedata.category(char) != "Mn"
+        if unicodedata.category(char) != "Mn" or char in DEVANAGARI_VOWEL_SIGNS
     )
 
 
-- 
2.43.0


From 9c25604006a07550212181010988d946d3d4c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 11/19] fix: recognise every apostrophe spelling of Ukrainian
 numbers everywhere
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only parse_number() with an explicit language understood "п'ять"; language
detection, parse() and parse_ordinal() split it at the apostrophe, and forms
such as "п'яти" were not understood at all.
---
 number_parser/parser.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index b1ac2eb..ed8a3c5 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -188,6 +188,11 @@ def _tokenize(input_string, language):
         return re.split(
             r"((?![\u0900-\u0963\u0966-\u097f\u200c\u200d])\W)", input_string
         )
+    if language == "uk":
+        # an apostrophe between letters is part of a Ukrainian word
+        return re.split(
+            r"((?![\u0300-\u036f]|(?<=\w)['’](?=\w))\W)", input_string
+        )
     # combining accents (decomposed letters, stress marks) belong to their word
     return re.split(r"((?![\u0300-\u036f])\W)", input_string)
 
@@ -201,14 +206,27 @@ def _strip_accents(word):
     )
 
 
+def _strip_apostrophes(word):
+    """Removes the apostrophes inside the input word."""
+    return re.sub(r"(?<=\w)['’ʼ](?=\w)", "", word)
+
+
+def _normalize_token(token):
+    """Converts the token to lowercase then removes accents and apostrophes."""
+    return _strip_apostrophes(_strip_accents(token.lower()))
+
+
 def _normalize_tokens(token_list):
-    """Converts all tokens to lowercase then removes accents."""
-    return [_strip_accents(token.lower()) for token in token_list]
+    """Converts all tokens to lowercase then removes accents and apostrophes."""
+    return [_normalize_token(token) for token in token_list]
 
 
 def _normalize_dict(lang_data):
-    """Removes the accent from each key of input dictionary"""
-    return {_strip_accents(word): number for word, number in lang_data.items()}
+    """Removes the accents and apostrophes from each key of input dictionary"""
+    return {
+        _strip_apostrophes(_strip_accents(word)): number
+        for word, number in lang_data.items()
+    }
 
 
 def _is_cardinal_token(token, lang_data):
@@ -398,7 +416,7 @@ def parse(input_string, language=None):
                 current_sentence.pop()
 
     for token in tokens:
-        compare_token = _strip_accents(token.lower())
+        compare_token = _normalize_token(token)
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
         if not compare_token.strip():
-- 
2.43.0


From 639b4d3a85206edd196a9276b6a7bf4db1b62b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 12/19] fix: keep the text around converted numbers in parse

A conjunction or hyphen after the last number was dropped before a sentence
separator, at the end of the text and before another one ("one and." became
"1."), kept ones were lowercased, and a space was put between a number and the
punctuation right after it ("five!" became "5 !").
---
 number_parser/parser.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ed8a3c5..bbab4bf 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -116,7 +116,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(_normalize_token(token), lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -402,58 +402,51 @@ def parse(input_string, language=None):
     final_sentence = []
     current_sentence = []
     tokens_taken = []
-    pop_last_space = True
+    # white space and skip tokens read after the last number word
+    pending_tokens = []
 
-    def _build_and_add_number(pop_last_space=False):
+    def _build_and_add_number():
         if tokens_taken:
             result = _build_number(tokens_taken, lang_data)
             tokens_taken.clear()
+            current_sentence.append(" ".join(result))
+            current_sentence.extend(pending_tokens)
+            pending_tokens.clear()
 
-            for number in result:
-                current_sentence.extend([number, " "])
-
-            if pop_last_space:
-                current_sentence.pop()
+    def _take_number_word(number_word):
+        tokens_taken.extend(token for token in pending_tokens if token != " ")
+        pending_tokens.clear()
+        tokens_taken.append(number_word)
 
     for token in tokens:
         compare_token = _normalize_token(token)
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
-        if not compare_token.strip():
+        if not token.strip():
             if not tokens_taken:
                 current_sentence.append(token)
-                pop_last_space = True
-            else:
-                pop_last_space = False
+            elif token and pending_tokens[-1:] != [" "]:
+                pending_tokens.append(" ")
             continue
 
         if compare_token in SENTENCE_SEPARATORS:
-            _build_and_add_number(pop_last_space=pop_last_space)
+            _build_and_add_number()
             current_sentence.append(token)
             final_sentence.extend(current_sentence)
             current_sentence = []
             continue
 
         if ordinal_number:
-            tokens_taken.append(ordinal_number)
-            _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
-            tokens_taken.append(compare_token)
+            _take_number_word(ordinal_number)
+            _build_and_add_number()
+        elif _is_cardinal_token(compare_token, lang_data):
+            _take_number_word(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            pending_tokens.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-        pop_last_space = True
-
     _build_and_add_number()
 
     final_sentence.extend(current_sentence)
-- 
2.43.0


From 22b00315918495a5f8c8009a6659c68b36869bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 13/19] fix: find the separator of a fraction whatever its case
 and spacing

Number words are read in any case and with any white space, but
"One Over Two" and "one divided  by two" were not.
---
 number_parser/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index bbab4bf..7b5ce02 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -365,16 +365,16 @@ def parse_fraction(input_string, language=None):
     if language is None:
         language = _valid_tokens_by_language(input_string)
 
-    FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]
+    FRACTION_SEPARATORS = [r"divided\s+by", "over", "by", "/"]
 
     for separator in FRACTION_SEPARATORS:
-        position_of_separator = input_string.find(separator)
+        match = re.search(separator, input_string, re.IGNORECASE)
 
-        if position_of_separator == -1:
+        if match is None:
             continue
 
-        string_before_separator = input_string[:position_of_separator]
-        string_after_separator = input_string[position_of_separator + len(separator) :]
+        string_before_separator = input_string[: match.start()]
+        string_after_separator = input_string[match.end() :]
 
         number_before_separator = parse_number(string_before_separator, language)
         number_after_separator = parse_number(string_after_separator, language)
-- 
2.43.0


From 624d44eb59f9049d13ecae48c4140909d95a9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 14/19] fix: read digits surrounded by any white space in
 parse_number

str.strip() removes the separators U+001C to U+001F but int() does not, so
parse_number("\x1c5") raised ValueError.
---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 7b5ce02..f650a9f 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -326,7 +326,7 @@ def parse_number(input_string, language=None):
         return None
 
     if input_string.strip().isdecimal():
-        return int(input_string)
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From 991d21de41bb27afffb1d4206c9706be6113ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 15/19] fix: do not fail on messages that the locale cannot
 encode when generating language data

---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index 6ba62df..ce23271 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -112,7 +112,7 @@ def _extract_information(key, word, language_data):
     try:
         number = int(key)
     except ValueError:
-        print(f"The given key {key} is not an integer")
+        print(f"The given key {key!a} is not an integer")
         return
 
     word = word.replace(";", "")
-- 
2.43.0


From 67bde5cef255902fc0cb34371a4bb0aa3af96e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 16/19] fix: count the zeros of rule keys of 10**23 and more
 exactly

---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index ce23271..f6e379f 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -56,7 +56,7 @@ def _count_zero(number):
     while number > 9:
         if number % 10 == 0:
             zero_count += 1
-            number /= 10
+            number //= 10
         else:
             break
     return zero_count
-- 
2.43.0


From 031a54d91d27e3504b3c52a1ad6626fcdb325f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 17/19] fix: only write the boolean values of a table in
 Python's spelling, not number words like 'true'

---
 number_parser_scripts/write_complete_language_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index f6e379f..1aea7c7 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -181,8 +181,8 @@ def write_complete_data():
             ordered_language_data, indent=4, ensure_ascii=False
         )
         # Overwriting boolean value with capitalized form
-        translation_data = re.sub(r"\bfalse\b", "False", translation_data)
-        translation_data = re.sub(r"\btrue\b", "True", translation_data)
+        translation_data = re.sub(r"(?m): false(,?)$", r": False\1", translation_data)
+        translation_data = re.sub(r"(?m): true(,?)$", r": True\1", translation_data)
         out_text = "info = " + translation_data + "\n"
         with open(full_target_path, "w+", encoding="utf-8") as target_file:
             target_file.write(out_text)
-- 
2.43.0


From 87b197102a368799bf313c23bcb3c5d62aa36344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:51 +0000
Subject: [PATCH 18/19] fix: a rule that ends with its factor defines no scale
 word, and does not stop the generator

---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index 1aea7c7..8c91963 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -86,7 +86,7 @@ def _add_compound_words(number, word, language_data):
 def _add_multiplier_words(number, word, language_data):
     """Adding words that are large powers of 10 which are used to form bigger numbers."""
     required_part = word.split("<")[-1]
-    if required_part[0] != " ":
+    if not required_part.startswith(" "):
         return
 
     power_of_10 = _count_zero(number)
-- 
2.43.0


From b1415b2e26b3861d617bee1ce8dca02856b37ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:24 +0000
Subject: [PATCH 19/19] fix: an apostrophe between digits joins nothing in
 Ukrainian

---
 number_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index f650a9f..3e64d4b 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -191,7 +191,7 @@ def _tokenize(input_string, language):
     if language == "uk":
         # an apostrophe between letters is part of a Ukrainian word
         return re.split(
-            r"((?![\u0300-\u036f]|(?<=\w)['’](?=\w))\W)", input_string
+            r"((?![\u0300-\u036f]|(?<=[^\W\d_])['’](?=[^\W\d_]))\W)", input_string
         )
     # combining accents (decomposed letters, stress marks) belong to their word
     return re.split(r"((?![\u0300-\u036f])\W)", input_string)
@@ -208,7 +208,7 @@ def _strip_accents(word):
 
 def _strip_apostrophes(word):
     """Removes the apostrophes inside the input word."""
-    return re.sub(r"(?<=\w)['’ʼ](?=\w)", "", word)
+    return re.sub(r"(?<=[^\W\d_])['’ʼ](?=[^\W\d_])", "", word)
 
 
 def _normalize_token(token):
-- 
2.43.0

