From f51247dd15ce271aaa738beb5e31ff680facf119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 01/13] fix: read JSON object keys unescaped

Vocabulary entries, template piece names, padding strategies and added token
fields were compared in their escaped spelling, so "\u00e9" or "\\" in a key
never matched the text it stands for.
---
 src/added_vocabulary.cpp | 2 +-
 src/post_processor.cpp   | 4 ++--
 src/utils.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..34381f7 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -327,7 +327,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     simdjson::ondemand::object added_token_param = val.get_object();
     AddedToken added_token;
     for (auto element : added_token_param) {
-      auto key = element.escaped_key();
+      auto key = element.unescaped_key();
       if (key.value() == "id") {
         added_token.id = static_cast<int>(element.value().get_int64());
       } else if (key.value() == "content") {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..a0b78d8 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -53,7 +53,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
@@ -70,7 +70,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..efd6d54 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -255,7 +255,7 @@ std::unique_ptr<Padding> with_padding(
       simdjson::ondemand::object strategy_obj = val.get_object().value();
       for (auto field : strategy_obj) {
         strategy =
-            std::string(static_cast<std::string_view>(field.escaped_key()));
+            std::string(static_cast<std::string_view>(field.unescaped_key()));
         fixed_size = static_cast<int>(field.value().get_int64());
       }
     } else {
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From 09e68c86cede41ce3f5a739f228137466b24127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 02/13] fix: recognize added tokens the model does not know

Added tokens were looked up in the model again when the matcher was rebuilt, so a
token outside the model's vocabulary was given an id but never matched.  With an
empty vocabulary the end iterator was dereferenced, a missing model was
dereferenced, and adding added_tokens itself appended to the list being read.
---
 src/added_vocabulary.cpp | 41 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 34381f7..204b2e5 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -52,8 +52,11 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
   return std::nullopt;
 }
 
-int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
+int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
+  // new_tokens may be added_tokens itself, which grows below
+  const std::vector<AddedToken> tokens = new_tokens;
+  const int vocab_size = model != nullptr ? model->get_vocab_size() : 0;
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
@@ -73,7 +76,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
+    } else if (model != nullptr &&
+               model->token_to_id(token.content).has_value()) {
       new_id = model->token_to_id(token.content).value();
     } else {
       auto max_val_token =
@@ -82,12 +86,11 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
+      if (max_val_token != added_tokens_map.end() &&
+          max_val_token->second >= vocab_size) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
       }
     }
     added_tokens_map[token.content] = new_id;
@@ -106,23 +109,15 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
 void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
-  for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
-      }
-    }
-  }
-  for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
+  for (const auto* token_list : {&special_tokens, &added_tokens}) {
+    for (const auto& token : *token_list) {
+      auto it = added_tokens_map.find(token.content);
+      if (it != added_tokens_map.end()) {
+        if (token.normalized) {
+          normalized.push_back({token, it->second});
+        } else {
+          non_normalized.push_back({token, it->second});
+        }
       }
     }
   }
-- 
2.43.0


From 23265d9f23ba81ac788158c20d5958f78a8c8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 03/13] fix: tolerate missing components and unknown ids in
 Tokenizer

A configuration without added_tokens, model or decoder made add_tokens and decode
dereference null pointers, and an unknown id threw bad_optional_access.
---
 src/tokenizer.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..28112ca 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -84,19 +84,17 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     throw std::runtime_error("Error parsing tokenizer config");
   }
 
-  if (added_vocabulary != nullptr) {
-    add_tokens(added_vocabulary->added_tokens);
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
   }
+  add_tokens(added_vocabulary->added_tokens);
 }
 
 Encoding Tokenizer::encode(const std::wstring& sequence,
                            bool add_special_tokens) {
   PreTokenizedString pre_tokenized =
-      PreTokenizedString(NormalizedString(sequence));
-  if (added_vocabulary != nullptr) {
-    pre_tokenized =
-        added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
-  }
+      added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
   if (pre_tokenizer != nullptr) {
     pre_tokenized = pre_tokenizer->pre_tokenize(pre_tokenized);
   }
@@ -110,15 +108,24 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
   for (int id : ids) {
     std::string token = "";
     std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
+    if (!av_token.has_value() && model != nullptr) {
+      av_token = model->id_to_token(id);
+    }
     if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+      continue;
     }
+    token = av_token.value();
     if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
       tokens.push_back(token);
     }
   }
+  if (decoder == nullptr) {
+    std::string result;
+    for (size_t i = 0; i < tokens.size(); i++) {
+      result += (i == 0 ? "" : " ") + tokens[i];
+    }
+    return result;
+  }
   tokens = decoder->decode_chain(tokens);
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
-- 
2.43.0


From 79d6e24b9097459321feea38017d02d82cb2bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 04/13] fix: use the whole GPT-2 pattern in the byte-level
 pre-tokenizer

std::regex_constants::optimize was taken as the length argument of std::string,
so the pattern was only its first four characters, "'s|'".
---
 src/pre_tokenizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..abad0ab 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,7 +10,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -241,8 +240,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 459970bba59646208e49a0598133f4393deecb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 05/13] fix: byte-encode non-ASCII text instead of throwing

Bytes above 0x7F were looked up as negative numbers.
---
 src/pre_tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index abad0ab..52719db 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -262,8 +262,8 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
   for (Split& split : pre_tokenized.splits) {
     std::string new_split_normalized;
-    for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+    for (const unsigned char c : split.normalized) {
+      new_split_normalized += BYTES_CHAR.at(c);
     }
     split.normalized = new_split_normalized;
   }
-- 
2.43.0


From 9b6c8f7ad05273745439e128732ec8ce49978bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 06/13] fix: accept the empty text with add_prefix_space

---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 52719db..a0c3bab 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -245,7 +245,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
+  if (add_prefix_space && !pre_tokenized.normalized.normalized.empty() &&
       !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
     pre_tokenized.normalized.normalized =
         std::wstring(L" ") + pre_tokenized.normalized.normalized;
-- 
2.43.0


From 72e01bb07d9067d271e22aff4e8b5744ec60415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 07/13] fix: keep one source range per character from the input
 to the offsets

Alignment was kept per UTF-8 byte and per UTF-16 unit at once and patched by
index arithmetic in every stage, which read out of bounds or gave wrong offsets
for anything removed, replaced, prepended, decomposed or outside the BMP.
NormalizedString now carries one range per character, and normalizers, added
token extraction and pre-tokenizers move it with the character.  On the way:
 - normalizers follow Unicode properties instead of the C locale, honour
   strip_accents, accept the empty text and replace whole literal matches
 - added tokens are matched leftmost-longest on characters, also inside words,
   with Unicode word and white space classes, normalized ones in their
   normalized form, and an input consumed by them leaves no stray split
 - Split honours invert, String patterns and every behavior, drops no text and
   reports bad patterns when loading; pieces count characters
 - byte-level prefixes each piece and keeps recognized added tokens
---
 include/tokenizers/added_vocabulary.h |   9 +-
 include/tokenizers/common.h           |   8 +-
 include/tokenizers/normalizer.h       |  12 +-
 include/tokenizers/pre_tokenizer.h    |  12 +-
 src/added_vocabulary.cpp              | 234 +++++--------
 src/common.cpp                        |   6 +
 src/normalizer.cpp                    | 472 +++++++-------------------
 src/pre_tokenizer.cpp                 | 204 +++++++----
 src/tokenizer.cpp                     |  15 +-
 9 files changed, 400 insertions(+), 572 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 076d25b..4d1b7da 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -50,13 +50,12 @@ class AddedVocabulary {
   std::unordered_map<int, AddedToken> added_tokens_map_r;
   std::vector<AddedToken> special_tokens;
   std::unordered_set<std::string> special_tokens_set;
-  std::pair<std::vector<std::string>, std::vector<int>>
-      split_non_normalized_trie;
-  std::pair<std::vector<std::string>, std::vector<int>> split_normalized_trie;
+  std::vector<std::pair<std::wstring, int>> split_non_normalized_tokens;
+  std::vector<std::pair<std::wstring, int>> split_normalized_tokens;
   void refresh_added_tokens(Model *model, Normalizer *normalizer);
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> find_matches(
-      std::string sentence,
-      std::pair<std::vector<std::string>, std::vector<int>> split_re);
+      const std::wstring &sentence,
+      const std::vector<std::pair<std::wstring, int>> &split_tokens) const;
 };
 
 std::unique_ptr<AddedVocabulary> with_added_vocabulary(
diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..8b940f2 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -37,7 +37,13 @@ class Token {
   Token(int id, std::string value, std::pair<int, int> offsets);
 };
 
-enum SPLIT_DELIMITER_BEHAVIOR { REMOVED, ISOLATED };
+enum SPLIT_DELIMITER_BEHAVIOR {
+  REMOVED,
+  ISOLATED,
+  MERGED_WITH_PREVIOUS,
+  MERGED_WITH_NEXT,
+  CONTIGUOUS
+};
 
 SPLIT_DELIMITER_BEHAVIOR
 get_split_delimiter_behavior(const std::string &behavior);
diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..5fd665e 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -37,14 +37,15 @@ NORMALIZER get_normalizer(std::string type);
 class NormalizedString {
  public:
   std::wstring normalized;
+  // range of original characters that each character of normalized came from
   std::vector<std::pair<int, int>> offsets;
-  std::vector<std::pair<int, int>> offset_ranges;
+  NormalizedString() = default;
   explicit NormalizedString(std::wstring normalized);
   NormalizedString(std::wstring normalized,
                    const std::vector<std::pair<int, int>> &offsets);
-  void transform(int i, std::string op, int n);
-  void transform_range(std::pair<int, int> original_offsets,
-                       NormalizedString sub_normalized);
+  void append(wchar_t c, std::pair<int, int> offset);
+  void append(const NormalizedString &other);
+  NormalizedString slice(int start, int end) const;
 };
 
 class Normalizer {
@@ -60,7 +61,8 @@ class BertNormalizer : public Normalizer {
  public:
   explicit BertNormalizer(bool clean_text = true,
                           bool handle_chinese_chars = true,
-                          bool strip_accents = false, bool lowercase = true);
+                          std::optional<bool> strip_accents = std::nullopt,
+                          bool lowercase = true);
   NormalizedString normalize(NormalizedString normalized) const override;
 
  private:
diff --git a/include/tokenizers/pre_tokenizer.h b/include/tokenizers/pre_tokenizer.h
index 8a86ce5..2c13948 100644
--- a/include/tokenizers/pre_tokenizer.h
+++ b/include/tokenizers/pre_tokenizer.h
@@ -1,6 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #pragma once
 
+#include <unicode/regex.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
@@ -59,6 +60,10 @@ class BertPreTokenizer : public PreTokenizer {
   BertPreTokenizer();
   PreTokenizedString pre_tokenize(
       PreTokenizedString pre_tokenized) const override;
+
+ private:
+  std::shared_ptr<const icu::RegexPattern> whitespace_pattern;
+  std::shared_ptr<const icu::RegexPattern> punctuation_pattern;
 };
 
 class SequencePreTokenizer : public PreTokenizer {
@@ -75,12 +80,13 @@ class SequencePreTokenizer : public PreTokenizer {
 class SplitPreTokenizer : public PreTokenizer {
  public:
   explicit SplitPreTokenizer(const std::string &pattern,
-                             const std::string &behavior, bool invert);
+                             const std::string &behavior, bool invert,
+                             bool literal = false);
   PreTokenizedString pre_tokenize(
       PreTokenizedString pre_tokenized) const override;
 
  private:
-  std::string pattern;
+  std::shared_ptr<const icu::RegexPattern> pattern;
   SPLIT_DELIMITER_BEHAVIOR behavior;
   bool invert;
 };
@@ -94,6 +100,6 @@ class ByteLevelPreTokenizer : public PreTokenizer {
  private:
   bool add_prefix_space;
   bool use_regex;
-  std::string regex;
+  std::shared_ptr<const icu::RegexPattern> pattern;
   std::unordered_map<uint16_t, std::string> BYTES_CHAR;
 };
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 204b2e5..dd60fbe 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -7,9 +7,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <string>
-#include <tuple>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -123,112 +121,86 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   }
 
   // TODO(omkar): build trie to do better pattern matching
-  std::vector<std::string> normalized_tokens;
-  std::vector<int> normalized_ids;
-  for (auto element : normalized) {
-    normalized_tokens.push_back(element.first.content);
-    normalized_ids.push_back(element.second);
-  }
-  split_normalized_trie = {normalized_tokens, normalized_ids};
-  std::vector<std::string> non_normalized_tokens;
-  std::vector<int> non_normalized_ids;
-  for (auto element : non_normalized) {
-    non_normalized_tokens.push_back(element.first.content);
-    non_normalized_ids.push_back(element.second);
+  std::vector<std::pair<std::wstring, int>> normalized_tokens;
+  for (const auto& element : normalized) {
+    NormalizedString content =
+        NormalizedString(convert_from_string(element.first.content));
+    if (normalizer != nullptr) {
+      content = normalizer->normalize(content);
+    }
+    if (!content.normalized.empty()) {
+      normalized_tokens.push_back({content.normalized, element.second});
+    }
   }
-  split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
-}
-
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
-}
-
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
-}
-
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+  std::vector<std::pair<std::wstring, int>> non_normalized_tokens;
+  for (const auto& element : non_normalized) {
+    non_normalized_tokens.push_back(
+        {convert_from_string(element.first.content), element.second});
   }
+  split_normalized_tokens = std::move(normalized_tokens);
+  split_non_normalized_tokens = std::move(non_normalized_tokens);
 }
 
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
-  }
+bool is_word_char(wchar_t c) {
+  return u_hasBinaryProperty(static_cast<UChar32>(c), UCHAR_ALPHABETIC) ||
+         u_hasBinaryProperty(static_cast<UChar32>(c), UCHAR_JOIN_CONTROL) ||
+         (U_MASK(u_charType(static_cast<UChar32>(c))) &
+          (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) != 0;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
 AddedVocabulary::find_matches(
-    std::string sentence,
-    std::pair<std::vector<std::string>, std::vector<int>> split_re) {
-  // TODO(omkar): update to find matches from trie
-  std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
-  for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
-  }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
+    const std::wstring& sentence,
+    const std::vector<std::pair<std::wstring, int>>& split_tokens) const {
+  std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
+  int total_len = sentence.length();
+  int start_offset = 0, cur = 0;
+  while (cur < total_len) {
+    // longest token at this position, the first listed one among equals
+    const std::pair<std::wstring, int>* longest = nullptr;
+    for (const auto& split_token : split_tokens) {
+      if ((longest == nullptr ||
+           split_token.first.length() > longest->first.length()) &&
+          sentence.compare(cur, split_token.first.length(),
+                           split_token.first) == 0) {
+        longest = &split_token;
+      }
     }
-    i++;
-  }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
+    if (longest == nullptr) {
+      cur++;
+      continue;
     }
-  }
-  std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
-  int start_offset = 0;
-  for (auto match : matches) {
-    int start = std::get<0>(match), stop = std::get<1>(match),
-        id = std::get<2>(match);
-    AddedToken added_token = added_tokens_map_r[id];
+    int start = cur, stop = cur + longest->first.length();
+    cur = stop;
+    const AddedToken& added_token = added_tokens_map_r.at(longest->second);
     if (encode_special_tokens &&
         special_tokens_set.count(added_token.content) > 0) {
       continue;
     }
-    if (added_token.single_word) {
-      bool start_space =
-          start == 0 || !ends_with_word(sentence.substr(0, start));
-      bool stop_space =
-          stop == sentence.length() || !starts_with_word(sentence.substr(stop));
-      if (!stop_space || !start_space) {
-        continue;
-      }
+    if (added_token.single_word &&
+        ((start > 0 && is_word_char(sentence[start - 1])) ||
+         (stop < total_len && is_word_char(sentence[stop])))) {
+      continue;
     }
     if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(sentence.substr(0, start));
-      start = std::max(new_start, start_offset);
+      while (start > start_offset &&
+             u_isUWhiteSpace(static_cast<UChar32>(sentence[start - 1]))) {
+        start--;
+      }
     }
     if (added_token.rstrip) {
-      stop += space_rightmost_at_start(sentence.substr(stop));
+      while (stop < total_len &&
+             u_isUWhiteSpace(static_cast<UChar32>(sentence[stop]))) {
+        stop++;
+      }
     }
     if (start_offset < start) {
       result.push_back({std::nullopt, {start_offset, start}});
     }
-    result.push_back({id, {start, stop}});
+    result.push_back({longest->second, {start, stop}});
     start_offset = stop;
+    cur = stop;
   }
-  int total_len = unicode_sentence.length();
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
@@ -242,76 +214,38 @@ int AddedVocabulary::add_special_tokens(const std::vector<AddedToken>& tokens,
 
 PreTokenizedString AddedVocabulary::extract_and_normalize(
     const Normalizer* normalizer, const std::wstring& sequence) {
-  PreTokenizedString pre_tokenized =
-      PreTokenizedString(NormalizedString(sequence));
-  auto matches =
-      find_matches(convert_to_string(pre_tokenized.normalized.normalized),
-                   split_non_normalized_trie);
-  std::vector<Split> non_normalized_splits;
-  for (auto match : matches) {
-    std::string value =
-        convert_to_string(pre_tokenized.normalized.normalized.substr(
-            match.second.first, match.second.second - match.second.first));
+  NormalizedString original = NormalizedString(sequence);
+  PreTokenizedString pre_tokenized = PreTokenizedString(NormalizedString());
+  pre_tokenized.splits.clear();
+  auto add_split = [&pre_tokenized](const NormalizedString& part,
+                                    std::optional<int> id) {
+    int start = pre_tokenized.normalized.normalized.length();
+    int length = part.normalized.length();
+    Split split(convert_to_string(part.normalized), {start, start + length});
+    if (id.has_value()) {
+      split.tokens = {Token(id.value(), split.normalized, {0, length})};
+    }
+    pre_tokenized.normalized.append(part);
+    pre_tokenized.splits.push_back(split);
+  };
+  for (const auto& match :
+       find_matches(original.normalized, split_non_normalized_tokens)) {
+    NormalizedString part =
+        original.slice(match.second.first, match.second.second);
     if (match.first.has_value()) {
-      Split new_split = Split(value, match.second);
-      new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
-      non_normalized_splits.push_back(new_split);
-    } else {
-      non_normalized_splits.push_back(Split(value, match.second));
+      add_split(part, match.first);
+      continue;
     }
-  }
-  if (non_normalized_splits.size() > 0) {
-    pre_tokenized.splits = non_normalized_splits;
-  }
-
-  std::vector<Split> normalized_splits;
-  int ending_idx = 0;
-  for (const Split& original_split : pre_tokenized.splits) {
-    if (original_split.tokens.size() > 0) {
-      Split new_split = original_split;
-      new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
-      normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
-    } else {
-      NormalizedString split_normalized =
-          NormalizedString(convert_from_string(original_split.normalized));
-      if (normalizer != nullptr) {
-        split_normalized = normalizer->normalize(split_normalized);
-      }
-      std::pair<int, int> new_split_offset = {
-          ending_idx, ending_idx + original_split.offsets.second -
-                          original_split.offsets.first};
-      pre_tokenized.normalized.transform_range(new_split_offset,
-                                               split_normalized);
-
-      matches = find_matches(convert_to_string(split_normalized.normalized),
-                             split_normalized_trie);
-      for (auto match : matches) {
-        std::string value =
-            convert_to_string(split_normalized.normalized.substr(
-                match.second.first, match.second.second - match.second.first));
-        if (match.first.has_value()) {
-          Split new_split =
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first});
-          new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
-          normalized_splits.push_back(new_split);
-        } else {
-          normalized_splits.push_back(
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first}));
-        }
-      }
-      ending_idx += split_normalized.normalized.length();
+    if (normalizer != nullptr) {
+      part = normalizer->normalize(part);
+    }
+    for (const auto& normalized_match :
+         find_matches(part.normalized, split_normalized_tokens)) {
+      add_split(part.slice(normalized_match.second.first,
+                           normalized_match.second.second),
+                normalized_match.first);
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
-
   return pre_tokenized;
 }
 
diff --git a/src/common.cpp b/src/common.cpp
index d98c463..7342963 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -23,6 +23,12 @@ SPLIT_DELIMITER_BEHAVIOR get_split_delimiter_behavior(
     const std::string& behavior) {
   if (behavior == "Isolated") {
     return ISOLATED;
+  } else if (behavior == "MergedWithPrevious") {
+    return MERGED_WITH_PREVIOUS;
+  } else if (behavior == "MergedWithNext") {
+    return MERGED_WITH_NEXT;
+  } else if (behavior == "Contiguous") {
+    return CONTIGUOUS;
   }
   return REMOVED;
 }
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..0d8a3c9 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -1,7 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #include "tokenizers/normalizer.h"
 
-#include <unicode/normlzr.h>
+#include <unicode/normalizer2.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
@@ -11,7 +11,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -44,20 +43,9 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
-  int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
-    icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
-    std::string normalized_str;
-    unicode_normalized_str.toUTF8String(normalized_str);
-    offset_ranges.push_back({idx, normalized_str.length()});
-    idx += normalized_str.length();
-    for (int j = 0; j < normalized_str.length(); j++) {
-      offsets.push_back({i, i + 1});
-    }
+  offsets.reserve(normalized.length());
+  for (int i = 0; i < normalized.length(); i++) {
+    offsets.push_back({i, i + 1});
   }
 }
 
@@ -65,6 +53,23 @@ NormalizedString::NormalizedString(
     std::wstring normalized, const std::vector<std::pair<int, int>>& offsets)
     : normalized(normalized), offsets(offsets) {}
 
+void NormalizedString::append(wchar_t c, std::pair<int, int> offset) {
+  normalized.push_back(c);
+  offsets.push_back(offset);
+}
+
+void NormalizedString::append(const NormalizedString& other) {
+  normalized += other.normalized;
+  offsets.insert(offsets.end(), other.offsets.begin(), other.offsets.end());
+}
+
+NormalizedString NormalizedString::slice(int start, int end) const {
+  return NormalizedString(
+      normalized.substr(start, end - start),
+      std::vector<std::pair<int, int>>(offsets.begin() + start,
+                                       offsets.begin() + end));
+}
+
 std::unique_ptr<Normalizer> with_normalizer(
     simdjson::ondemand::object normalizer_params) {
   simdjson::ondemand::value val;
@@ -124,9 +129,10 @@ std::unique_ptr<Normalizer> with_normalizer(
             ? false
             : static_cast<bool>(val.get_bool());
     val = normalizer_params["strip_accents"].value();
-    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
-                             ? false
-                             : static_cast<bool>(val.get_bool());
+    std::optional<bool> strip_accents;
+    if (val.type() != simdjson::ondemand::json_type::null) {
+      strip_accents = static_cast<bool>(val.get_bool());
+    }
     val = normalizer_params["lowercase"].value();
     bool lowercase = val.type() == simdjson::ondemand::json_type::null
                          ? false
@@ -149,263 +155,86 @@ std::unique_ptr<Normalizer> with_normalizer(
   return nullptr;
 }
 
-void NormalizedString::transform_range(std::pair<int, int> original_offsets,
-                                       NormalizedString sub_normalized) {
-  int original_start = original_offsets.first;
-  int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
-  int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
-                        : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
+// Normalizes the text between normalization boundaries: characters that change
+// get the range of the whole segment they are normalized with.
+NormalizedString normalize_form(const NormalizedString& normalized,
+                                const icu::Normalizer2* form,
+                                UErrorCode status) {
+  NormalizedString result;
+  const std::wstring& text = normalized.normalized;
+  size_t start = 0;
+  while (start < text.length() && U_SUCCESS(status)) {
+    size_t end = start + 1;
+    while (end < text.length() &&
+           !form->hasBoundaryBefore(static_cast<UChar32>(text[end]))) {
+      end++;
     }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
-  }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
-  }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
+    icu::UnicodeString unicode_segment = form->normalize(
+        icu::UnicodeString::fromUTF32(
+            reinterpret_cast<const UChar32*>(text.c_str() + start),
+            end - start),
+        status);
+    std::wstring segment;
+    for (int i = 0; i < unicode_segment.length();
+         i = unicode_segment.moveIndex32(i, 1)) {
+      segment.push_back(static_cast<wchar_t>(unicode_segment.char32At(i)));
+    }
+    if (segment == text.substr(start, end - start)) {
+      result.append(normalized.slice(start, end));
     } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
+      std::pair<int, int> offset = {normalized.offsets[start].first,
+                                    normalized.offsets[end - 1].second};
+      for (wchar_t c : segment) {
+        result.append(c, offset);
       }
     }
+    start = end;
   }
-  offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
-  offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
-  offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
-  offsets.insert(offsets.begin() + offsets_start,
-                 sub_normalized.offsets.begin(), sub_normalized.offsets.end());
-}
-
-void NormalizedString::transform(int i, std::string op, int n) {
-  int start = offset_ranges[i].first;
-  int limit = offset_ranges[i].second;
-  if (op == "erase") {
-    offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
-    offset_ranges.erase(offset_ranges.begin() + i,
-                        offset_ranges.begin() + i + 1);
-  } else if (op == "pad") {
-    std::pair<int, int> offset = offsets[start];
-    std::vector<std::pair<int, int>> new_offsets(2, offset);
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
-    std::vector<std::pair<int, int>> new_offset_ranges = {
-        {start, 1}, {start + 1, limit}, {start + limit + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + 3; j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-  } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-  } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
-  } else if (op == "add" || op == "replace") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
-    if (op == "add") {
-      new_offset_ranges.push_back({start + n, limit});
-    }
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + (op == "add" ? 2 : 1); j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-    std::vector<std::pair<int, int>> new_offsets((op == "add" ? n : n - 1),
-                                                 {offsets[start]});
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU normalization failed with error code: " +
+                             std::to_string(status));
   }
+  return result;
 }
 
 NFC::NFC() {}
 
 NormalizedString NFC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* form = icu::Normalizer2::getNFCInstance(status);
+  return normalize_form(normalized, form, status);
 }
 
 NFD::NFD() {}
 
 NormalizedString NFD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* form = icu::Normalizer2::getNFDInstance(status);
+  return normalize_form(normalized, form, status);
 }
 
 NFKC::NFKC() {}
 
 NormalizedString NFKC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* form = icu::Normalizer2::getNFKCInstance(status);
+  return normalize_form(normalized, form, status);
 }
 
 NFKD::NFKD() {}
 
 NormalizedString NFKD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* form = icu::Normalizer2::getNFKDInstance(status);
+  return normalize_form(normalized, form, status);
 }
 
 BertNormalizer::BertNormalizer(bool clean_text, bool handle_chinese_chars,
-                               bool strip_accents, bool lowercase)
+                               std::optional<bool> strip_accents,
+                               bool lowercase)
     : clean_text(clean_text),
       handle_chinese_chars(handle_chinese_chars),
-      strip_accents(strip_accents),
+      strip_accents(strip_accents.value_or(lowercase)),
       lowercase(lowercase) {}
 
 NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
@@ -415,7 +244,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
   if (handle_chinese_chars) {
     normalized = do_handle_chinese_chars(normalized);
   }
-  if (strip_accents || lowercase) {
+  if (strip_accents) {
     normalized = do_strip_accents(normalized);
   }
   if (lowercase) {
@@ -431,7 +260,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(static_cast<UChar32>(c));
   }
 }
 
@@ -442,7 +271,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return (U_MASK(u_charType(static_cast<UChar32>(c))) & U_GC_C_MASK) != 0;
   }
 }
 
@@ -454,87 +283,48 @@ bool is_chinese_char(wchar_t c) {
 }
 
 NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
-  std::wstring result;
-  int i = 0;
-  for (wchar_t c : normalized.normalized) {
+  NormalizedString result;
+  for (size_t i = 0; i < normalized.normalized.length(); i++) {
+    wchar_t c = normalized.normalized[i];
     if (c != 0 && c != 0xFFFD && !is_control(c)) {
-      if (is_whitespace(c)) {
-        result.push_back(L' ');
-      } else {
-        result.push_back(c);
-      }
-    } else {
-      normalized.transform(i, "erase", 0);
+      result.append(is_whitespace(c) ? L' ' : c, normalized.offsets[i]);
     }
-    i++;
   }
-  normalized.normalized = result;
-  return normalized;
+  return result;
 }
 
 NormalizedString BertNormalizer::do_handle_chinese_chars(
     NormalizedString normalized) {
-  std::vector<std::pair<wchar_t, int>> new_chars;
-  std::vector<int> transform_ids;
-  int i = 0;
-  for (wchar_t c : normalized.normalized) {
+  NormalizedString result;
+  for (size_t i = 0; i < normalized.normalized.length(); i++) {
+    wchar_t c = normalized.normalized[i];
     if (is_chinese_char(c)) {
-      new_chars.insert(new_chars.end(), {{L' ', 0}, {c, 1}, {L' ', 1}});
-      transform_ids.push_back(i);
-    } else {
-      new_chars.push_back({c, 0});
-    }
-    i++;
-  }
-  int multi = 0;
-  for (auto ti : transform_ids) {
-    ti += multi;
-    multi += 2;
-    normalized.transform(ti, "pad", 0);
-  }
-  std::wstring result = normalized.normalized;
-  i = 0;
-  for (const auto& change : new_chars) {
-    if (change.second > 0) {
-      result.insert(i, 1, change.first);
-    } else if (change.second < 0) {
-      i += change.second;
-      result.insert(i, 1, change.first);
+      result.append(L' ', normalized.offsets[i]);
+      result.append(c, normalized.offsets[i]);
+      result.append(L' ', normalized.offsets[i]);
     } else {
-      result[i] = change.first;
+      result.append(c, normalized.offsets[i]);
     }
-    i++;
   }
-  normalized.normalized = result;
-  return normalized;
+  return result;
 }
 
 NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
   auto nfd_normalized = NFD().normalize(normalized);
-  std::wstring result;
-  int i = 0;
-  std::vector<int> shrink_ids;
-  for (wchar_t c : nfd_normalized.normalized) {
+  NormalizedString result;
+  for (size_t i = 0; i < nfd_normalized.normalized.length(); i++) {
+    wchar_t c = nfd_normalized.normalized[i];
     if (u_charType(static_cast<UChar32>(c)) != U_NON_SPACING_MARK) {
-      result.push_back(c);
-    } else {
-      shrink_ids.push_back(i);
+      result.append(c, nfd_normalized.offsets[i]);
     }
-    i++;
   }
-  int multi = 0;
-  for (auto id : shrink_ids) {
-    nfd_normalized.transform(id + multi, "shrink", 0);
-    multi -= 1;
-  }
-  nfd_normalized.normalized = result;
-  return nfd_normalized;
+  return result;
 }
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
-  std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
-  normalized.normalized = result;
+  for (wchar_t& c : normalized.normalized) {
+    c = static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
+  }
   return normalized;
 }
 
@@ -556,38 +346,41 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
-  return normalized;
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
+  NormalizedString result;
+  for (wchar_t c : convert_from_string(prepend)) {
+    result.append(c, normalized.offsets[0]);
+  }
+  result.append(normalized);
+  return result;
 }
 
 Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
+  std::wstring find_pattern = convert_from_string(pattern);
   std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
-  }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  if (find_pattern.empty()) {
+    return normalized;
+  }
+  NormalizedString result;
+  size_t start = 0, match;
+  while ((match = normalized.normalized.find(find_pattern, start)) !=
+         std::wstring::npos) {
+    size_t end = match + find_pattern.length();
+    result.append(normalized.slice(start, match));
+    std::pair<int, int> offset = {normalized.offsets[match].first,
+                                  normalized.offsets[end - 1].second};
+    for (wchar_t c : replace_content) {
+      result.append(c, offset);
+    }
+    start = end;
   }
-  return normalized;
+  result.append(normalized.slice(start, normalized.normalized.length()));
+  return result;
 }
 
 Strip::Strip(bool strip_left, bool strip_right)
@@ -597,32 +390,31 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(static_cast<UChar32>(normalized.normalized[start]))) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
+    while (end > start && u_isUWhiteSpace(static_cast<UChar32>(
                               normalized.normalized[end - 1]))) {
       --end;
     }
   }
-  normalized.normalized = normalized.normalized.substr(start, end - start);
-  return normalized;
+  return normalized.slice(start, end);
 }
 
-bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
+bool isCombiningMark(wchar_t ch) {
+  return (U_MASK(u_charType(static_cast<UChar32>(ch))) & U_GC_M_MASK) != 0;
+}
 
 StripAccents::StripAccents() {}
 
 NormalizedString StripAccents::normalize(NormalizedString normalized) const {
-  std::wstring result;
-  for (wchar_t ch : normalized.normalized) {
-    if (!isCombiningMark(ch)) {
-      result += ch;
+  NormalizedString result;
+  for (size_t i = 0; i < normalized.normalized.length(); i++) {
+    if (!isCombiningMark(normalized.normalized[i])) {
+      result.append(normalized.normalized[i], normalized.offsets[i]);
     }
   }
-  normalized.normalized = result;
-  return normalized;
+  return result;
 }
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index a0c3bab..8d705ed 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -5,11 +5,13 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <memory>
 #include <numeric>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -69,10 +71,15 @@ std::unique_ptr<PreTokenizer> with_pre_tokenizer(
         SequencePreTokenizer(std::move(seq_pre_tokenizers)));
   } else if (get_pre_tokenizer(type) == SPLIT_PRE_TOKENIZER) {
     val = pre_tokenizer_params["pattern"].value();
-    std::string pattern = std::string(
-        val.type() == simdjson::ondemand::json_type::null
-            ? ""
-            : static_cast<std::string_view>(val["Regex"].value().get_string()));
+    std::string pattern;
+    bool literal = false;
+    if (val.type() != simdjson::ondemand::json_type::null) {
+      auto regex_val = val["Regex"];
+      literal = regex_val.error() == simdjson::NO_SUCH_FIELD;
+      pattern = std::string(static_cast<std::string_view>(
+          literal ? val["String"].value().get_string()
+                  : regex_val.value().get_string()));
+    }
     val = pre_tokenizer_params["behavior"].value();
     std::string behavior =
         val.type() == simdjson::ondemand::json_type::null
@@ -83,7 +90,7 @@ std::unique_ptr<PreTokenizer> with_pre_tokenizer(
                       ? false
                       : static_cast<bool>(val.get_bool());
     return std::make_unique<SplitPreTokenizer>(
-        SplitPreTokenizer(pattern, behavior, invert));
+        SplitPreTokenizer(pattern, behavior, invert, literal));
   } else if (get_pre_tokenizer(type) == BYTE_LEVEL_PRE_TOKENIZER) {
     val = pre_tokenizer_params["add_prefix_space"].value();
     bool add_prefix_space = val.type() == simdjson::ondemand::json_type::null
@@ -99,46 +106,46 @@ std::unique_ptr<PreTokenizer> with_pre_tokenizer(
   return nullptr;
 }
 
-std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
-    std::string regex, icu::UnicodeString input) {
-  std::vector<std::pair<int, int>> matches;
+std::shared_ptr<const icu::RegexPattern> compile_pattern(
+    const std::string& pattern, bool literal = false) {
+  if (literal && pattern.empty()) {
+    return compile_pattern("(?!)");   // matches nothing
+  }
   UErrorCode status = U_ZERO_ERROR;
-  icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
-      icu::UnicodeString::fromUTF8(regex), 0, status);
-  icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
-  while (matcher->find(status)) {
-    matches.push_back({matcher->start(status), matcher->end(status)});
+  UParseError parse_error;
+  std::shared_ptr<const icu::RegexPattern> result(icu::RegexPattern::compile(
+      icu::UnicodeString::fromUTF8(pattern), literal ? UREGEX_LITERAL : 0,
+      parse_error, status));
+  if (U_FAILURE(status) || result == nullptr) {
+    throw std::invalid_argument("Invalid pattern: " + pattern);
   }
-  delete matcher;
-  delete unicode_pattern;
+  return result;
+}
 
+std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
+    const icu::RegexPattern& pattern, const icu::UnicodeString& input) {
   std::vector<std::pair<std::pair<int, int>, bool>> result;
+  UErrorCode status = U_ZERO_ERROR;
+  std::unique_ptr<icu::RegexMatcher> matcher(pattern.matcher(input, status));
   int cur = 0;
-  for (auto match : matches) {
-    if (cur != match.first) {
+  while (U_SUCCESS(status) && matcher->find(status)) {
+    std::pair<int, int> match = {matcher->start(status), matcher->end(status)};
+    if (cur < match.first) {
       result.push_back({{cur, match.first}, false});
     }
     result.push_back({match, true});
     cur = match.second;
   }
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("Pattern matching failed with error code: " +
+                             std::to_string(status));
+  }
   if (cur < input.length()) {
     result.push_back({{cur, input.length()}, false});
   }
   return result;
 }
 
-std::vector<std::pair<std::pair<int, int>, bool>> is_whitespace(
-    icu::UnicodeString input) {
-  std::string pattern = "\\s+";
-  return find_matches(pattern, input);
-}
-
-std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
-    icu::UnicodeString input) {
-  std::string pattern = "\\p{P}";
-  return find_matches(pattern, input);
-}
-
 std::vector<Split> split_normalized(
     Split original_split,
     std::function<
@@ -150,26 +157,66 @@ std::vector<Split> split_normalized(
       icu::UnicodeString::fromUTF8(original_split.normalized);
   std::vector<std::pair<std::pair<int, int>, bool>> matches =
       split_fn(unicode_normalized);
+  // ranges to keep (or to drop, if marked) after applying the behavior
+  std::vector<std::pair<std::pair<int, int>, bool>> parts;
+  bool previous_match = false;
   switch (pattern) {
     case REMOVED:
+      parts = matches;
       break;
     case ISOLATED:
-      for (auto& match : matches) {
-        match.second = false;
+      for (const auto& match : matches) {
+        parts.push_back({match.first, false});
+      }
+      break;
+    case CONTIGUOUS:
+      for (const auto& match : matches) {
+        if (match.second == previous_match && !parts.empty()) {
+          parts.back().first.second = match.first.second;
+        } else {
+          parts.push_back({match.first, false});
+        }
+        previous_match = match.second;
+      }
+      break;
+    case MERGED_WITH_PREVIOUS:
+      for (const auto& match : matches) {
+        if (match.second && !previous_match && !parts.empty()) {
+          parts.back().first.second = match.first.second;
+        } else {
+          parts.push_back({match.first, false});
+        }
+        previous_match = match.second;
       }
       break;
+    case MERGED_WITH_NEXT:
+      for (auto match = matches.rbegin(); match != matches.rend(); ++match) {
+        if (match->second && !previous_match && !parts.empty()) {
+          parts.back().first.first = match->first.first;
+        } else {
+          parts.push_back({match->first, false});
+        }
+        previous_match = match->second;
+      }
+      std::reverse(parts.begin(), parts.end());
+      break;
   }
-  for (auto match : matches) {
-    if (!match.second) {
+  int offset = original_split.offsets.first, cur = 0;
+  for (const auto& part : parts) {
+    int start = offset + unicode_normalized.countChar32(
+                             cur, part.first.first - cur);
+    int end = start + unicode_normalized.countChar32(
+                          part.first.first,
+                          part.first.second - part.first.first);
+    if (!part.second && start != end) {
       std::string split_unicode_normalized;
       unicode_normalized
-          .tempSubStringBetween(match.first.first, match.first.second)
+          .tempSubStringBetween(part.first.first, part.first.second)
           .toUTF8String(split_unicode_normalized);
-      new_splits.push_back(
-          Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+      new_splits.push_back(Split(split_unicode_normalized, {start, end}));
     }
+    offset = end;
+    cur = part.first.second;
   }
   return new_splits;
 }
@@ -194,12 +241,23 @@ void PreTokenizedString::split(
   splits = new_splits;
 }
 
-BertPreTokenizer::BertPreTokenizer() {}
+BertPreTokenizer::BertPreTokenizer()
+    : whitespace_pattern(compile_pattern("\\p{White_Space}+")),
+      punctuation_pattern(
+          compile_pattern("[\\p{P}!-/:-@\\[-`\\{-~]")) {}
 
 PreTokenizedString BertPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  pre_tokenized.split(is_whitespace, SPLIT_DELIMITER_BEHAVIOR::REMOVED);
-  pre_tokenized.split(is_bert_punc, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
+  pre_tokenized.split(
+      [this](icu::UnicodeString input) {
+        return find_matches(*whitespace_pattern, input);
+      },
+      SPLIT_DELIMITER_BEHAVIOR::REMOVED);
+  pre_tokenized.split(
+      [this](icu::UnicodeString input) {
+        return find_matches(*punctuation_pattern, input);
+      },
+      SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
   return pre_tokenized;
 }
 
@@ -219,8 +277,9 @@ PreTokenizedString SequencePreTokenizer::pre_tokenize(
 }
 
 SplitPreTokenizer::SplitPreTokenizer(const std::string& pattern,
-                                     const std::string& behavior, bool invert)
-    : pattern(pattern),
+                                     const std::string& behavior, bool invert,
+                                     bool literal)
+    : pattern(compile_pattern(pattern, literal)),
       behavior(get_split_delimiter_behavior(behavior)),
       invert(invert) {}
 
@@ -228,7 +287,11 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(*pattern, input);
+    for (auto& match : matches) {
+      match.second = match.second != invert;
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
@@ -239,33 +302,60 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
                                              bool use_regex)
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
-      regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
+      pattern(compile_pattern(
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\p{White_Space}\p{L}\p{N}]+|\p{White_Space}+(?!\P{White_Space})|\p{White_Space}+)")),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space && !pre_tokenized.normalized.normalized.empty() &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  if (add_prefix_space) {
+    NormalizedString normalized;
+    for (Split& split : pre_tokenized.splits) {
+      int start = normalized.normalized.length();
+      NormalizedString part = pre_tokenized.normalized.slice(
+          split.offsets.first, split.offsets.second);
+      if (split.tokens.empty() && !part.normalized.empty() &&
+          !u_isUWhiteSpace(static_cast<UChar32>(part.normalized[0]))) {
+        normalized.append(L' ', part.offsets[0]);
+        split.normalized = " " + split.normalized;
+      }
+      normalized.append(part);
+      split.offsets = {start, static_cast<int>(normalized.normalized.length())};
+    }
+    pre_tokenized.normalized = normalized;
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
     if (use_regex) {
-      return find_matches(regex, input);
+      return find_matches(*pattern, input);
     }
     return {{{0, input.length()}, false}};
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
+  NormalizedString normalized;
   for (Split& split : pre_tokenized.splits) {
-    std::string new_split_normalized;
-    for (const unsigned char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(c);
+    int start = normalized.normalized.length();
+    NormalizedString part = pre_tokenized.normalized.slice(
+        split.offsets.first, split.offsets.second);
+    if (split.tokens.empty()) {
+      std::string encoded;
+      std::vector<std::pair<int, int>> encoded_offsets;
+      int i = -1;
+      for (const unsigned char c : split.normalized) {
+        if ((c & 0xC0) != 0x80) {
+          i++;
+        }
+        encoded += BYTES_CHAR.at(c);
+        encoded_offsets.push_back(part.offsets[i]);
+      }
+      split.normalized = encoded;
+      normalized.append(
+          NormalizedString(convert_from_string(encoded), encoded_offsets));
+    } else {
+      normalized.append(part);
     }
-    split.normalized = new_split_normalized;
+    split.offsets = {start, static_cast<int>(normalized.normalized.length())};
   }
+  pre_tokenized.normalized = normalized;
   return pre_tokenized;
 }
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 28112ca..3d359a7 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -144,21 +144,14 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
+    const std::vector<std::pair<int, int>>& offsets =
+        pre_tokenized.normalized.offsets;
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
       encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+          {offsets[split.offsets.first + token.offsets.first].first,
+           offsets[split.offsets.first + token.offsets.second - 1].second});
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From 6fa15a6ea1c778d6e90495ac99a1ed051f815c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 08/13] fix: segment words in characters and apply BPE merges
 by rank

WordPiece and BPE worked on UTF-16 units and bytes, the merge queue was a
max-heap on the rank, the empty word underflowed, byte fallback looked for
the wrong tokens, pending unknown tokens were lost or reordered, merges
were split at any white space, and the shared BPE cache was not locked.
---
 include/tokenizers/model.h |  12 ++-
 src/model.cpp              | 163 ++++++++++++++++++++-----------------
 2 files changed, 98 insertions(+), 77 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..2b3bc67 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -56,8 +57,9 @@ class Symbol {
   int c;
   int prev;
   int next;
+  int start;
   int len;
-  Symbol(int c, int prev, int next, int len);
+  Symbol(int c, int prev, int next, int start, int len);
   void merge_with(const Symbol *other, int new_c);
 };
 
@@ -67,7 +69,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // the queue yields the lowest rank first, and the leftmost of equal ranks
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
@@ -84,7 +89,7 @@ class Word {
   std::vector<Symbol> symbols;
   Word() = default;
   explicit Word(const std::vector<Symbol> &symbols);
-  void add(int c, int len);
+  void add(int c, int start, int len);
   void merge_all(
       std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash>
           merges,
@@ -111,6 +116,7 @@ class BPE : public Model {
 
  private:
   mutable std::unordered_map<std::string, Word> cache;
+  std::unique_ptr<std::mutex> cache_mutex;
   Word merge_word(std::string sequence) const;
   std::vector<Token> word_to_tokens(const Word &word) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..1c3e19c 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -6,10 +6,10 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <queue>
 #include <random>
-#include <sstream>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -140,11 +140,25 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
       max_input_chars_per_word(max_input_chars_per_word),
       continuing_subword_prefix(continuing_subword_prefix) {}
 
+// Byte positions at which the characters of a UTF-8 string start, and its end.
+std::vector<int> char_boundaries(const std::string& sequence) {
+  std::vector<int> result;
+  for (int i = 0; i < sequence.size(); i++) {
+    if ((sequence[i] & 0xC0) != 0x80) {
+      result.push_back(i);
+    }
+  }
+  result.push_back(sequence.size());
+  return result;
+}
+
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
-    int char_len = unicode_sequence.length();
+    if (!split.tokens.empty()) {
+      continue;
+    }
+    std::vector<int> boundaries = char_boundaries(split.normalized);
+    int char_len = boundaries.size() - 1;
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
@@ -157,14 +171,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     bool is_bad = false;
     int start = 0;
     std::vector<Token> sub_tokens;
-    while (start < unicode_sequence.length()) {
-      int end = unicode_sequence.length();
+    while (start < char_len) {
+      int end = char_len;
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence = split.normalized.substr(
+            boundaries[start], boundaries[end] - boundaries[start]);
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
@@ -198,12 +210,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   return pre_tokenized;
 }
 
-Symbol::Symbol(int c, int prev, int next, int len)
-    : c(c), prev(prev), next(next), len(len) {}
+Symbol::Symbol(int c, int prev, int next, int start, int len)
+    : c(c), prev(prev), next(next), start(start), len(len) {}
 
 void Symbol::merge_with(const Symbol* other, int new_c) {
   c = new_c;
-  len += other->len;
+  len = other->start + other->len - start;
   next = other->next;
 }
 
@@ -212,7 +224,7 @@ Merge::Merge(int pos, int rank, int new_id)
 
 Word::Word(const std::vector<Symbol>& symbols) : symbols(symbols) {}
 
-void Word::add(int c, int len) {
+void Word::add(int c, int start, int len) {
   int prev = -1, next = -1;
   int cur_len = symbols.size();
   if (!symbols.empty()) {
@@ -220,7 +232,7 @@ void Word::add(int c, int len) {
     last.next = cur_len;
     prev = cur_len - 1;
   }
-  symbols.emplace_back(Symbol(c, prev, next, len));
+  symbols.emplace_back(Symbol(c, prev, next, start, len));
 }
 
 void Word::merge_all(
@@ -229,7 +241,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
@@ -312,12 +324,14 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       fuse_unk(fuse_unk),
       byte_fallback(byte_fallback),
       ignore_merges(ignore_merges),
-      cache({}) {
+      cache({}),
+      cache_mutex(std::make_unique<std::mutex>()) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
-    std::istringstream iss(merges_list[i]);
-    std::string part1, part2;
-    if (iss >> part1 >> part2) {
+    size_t space = merges_list[i].find(' ');
+    if (space != std::string::npos) {
+      std::string part1 = merges_list[i].substr(0, space);
+      std::string part2 = merges_list[i].substr(space + 1);
       auto it1 = vocab.find(part1);
       auto it2 = vocab.find(part2);
       if (it1 != vocab.end() && it2 != vocab.end()) {
@@ -336,16 +350,24 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
 }
 
 Word BPE::merge_word(std::string sequence) const {
-  int length = sequence.size();
+  std::vector<int> boundaries = char_boundaries(sequence);
+  int length = boundaries.size() - 1;
   Word word;
-  std::optional<std::pair<int, int>> unk;
+  // pending unknown token: id, first character and number of characters
+  std::optional<Symbol> unk;
+  auto add_pending_unk = [&word, &unk]() {
+    if (unk.has_value()) {
+      word.add(unk->c, unk->start, unk->len);
+      unk.reset();
+    }
+  };
   for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
     bool is_first = (i == 0);
-    bool is_last = (end == length);
+    bool is_last = (i + 1 == length);
 
-    std::string sub_sequence = sequence.substr(i, end - i);
-    int sub_len = sub_sequence.length();
+    std::string character =
+        sequence.substr(boundaries[i], boundaries[i + 1] - boundaries[i]);
+    std::string sub_sequence = character;
 
     if (!is_first && continuing_subword_prefix.size() != 0) {
       sub_sequence = (continuing_subword_prefix + sub_sequence);
@@ -357,63 +379,48 @@ Word BPE::merge_word(std::string sequence) const {
 
     auto it = vocab.find(sub_sequence);
     if (it != vocab.end()) {
-      if (unk.has_value()) {
-        word.add(unk->first, unk->second);
-        unk.reset();
-      }
-      word.add(it->second, sub_len);
-    } else {
-      if (byte_fallback) {
-        std::vector<std::optional<int>> tokens;
-        for (auto b : sub_sequence) {
-          std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
-              << ">";
-          auto code = oss.str();
-          auto token_it = vocab.find(code);
-          tokens.push_back((token_it != vocab.end())
-                               ? std::optional<int>(token_it->second)
-                               : std::nullopt);
-        }
-        bool added = false;
-        for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), 1);
-            added = true;
-          }
+      add_pending_unk();
+      word.add(it->second, i, 1);
+      continue;
+    }
+    if (byte_fallback) {
+      static const char* hex_digits = "0123456789ABCDEF";
+      std::vector<int> byte_ids;
+      for (const unsigned char b : character) {
+        std::string code = std::string("<0x") + hex_digits[b >> 4] +
+                           hex_digits[b & 0xF] + ">";
+        auto token_it = vocab.find(code);
+        if (token_it != vocab.end()) {
+          byte_ids.push_back(token_it->second);
         }
-        if (added)
-          continue;
       }
-      if (unk_token.size() != 0) {
-        if (unk.has_value() && fuse_unk) {
-          unk = {unk->first, unk->second + sub_len};
-        } else {
-          if (unk.has_value()) {
-            word.add(unk->first, unk->second);
-          }
-          auto unk_it = vocab.find(unk_token);
-          if (unk_it != vocab.end()) {
-            unk = {unk_it->second, sub_len};
-          }
+      if (byte_ids.size() == character.size()) {
+        add_pending_unk();
+        for (int id : byte_ids) {
+          word.add(id, i, 1);
         }
+        continue;
       }
     }
+    auto unk_it = vocab.find(unk_token);
+    if (unk_token.size() != 0 && unk_it != vocab.end()) {
+      if (!fuse_unk) {
+        add_pending_unk();
+      }
+      int start = unk.has_value() ? unk->start : i;
+      unk = Symbol(unk_it->second, -1, -1, start, i + 1 - start);
+    }
   }
-  if (unk.has_value()) {
-    word.add(unk->first, unk->second);
-  }
+  add_pending_unk();
   word.merge_all(merges, dropout);
   return word;
 }
 
 std::vector<Token> BPE::word_to_tokens(const Word& word) const {
   std::vector<Token> result;
-  int pos = 0;
   for (auto symbol : word.symbols) {
-    int new_pos = pos + symbol.len;
-    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
-    pos = new_pos;
+    result.push_back(Token(symbol.c, vocab_r.at(symbol.c),
+                           {symbol.start, symbol.start + symbol.len}));
   }
   return result;
 }
@@ -422,21 +429,29 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      int length = char_boundaries(sequence).size() - 1;
+      return {Token(it->second, sequence, {0, length})};
     }
   }
-  auto it = cache.find(sequence);
-  if (it != cache.end()) {
-    return word_to_tokens(it->second);
+  {
+    std::lock_guard<std::mutex> lock(*cache_mutex);
+    auto it = cache.find(sequence);
+    if (it != cache.end()) {
+      return word_to_tokens(it->second);
+    }
   }
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word);
+  std::lock_guard<std::mutex> lock(*cache_mutex);
   cache.insert({sequence, word});
   return result;
 }
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From f54c52fc47c109aed263f7666ab8d98c7d44d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 09/13] fix: wrap every overflowing window and reject uneven
 special tokens

TemplateProcessing dropped the overflowing windows, and a special token
with fewer tokens than ids gave sequences of different lengths.
---
 src/post_processor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index a0b78d8..55cff06 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -100,6 +101,10 @@ std::unique_ptr<PostProcessor> with_post_processor(
           tokens.push_back(std::string(
               static_cast<std::string_view>(token_elem.value().get_string())));
         }
+        if (ids.size() != tokens.size()) {
+          throw std::invalid_argument(
+              "Requires one id for each token of a special token!");
+        }
         special_tokens.push_back(SpecialToken(id, ids, tokens));
       }
     }
@@ -202,6 +207,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
                                  final_encoding.attention_mask.begin(),
                                  final_encoding.attention_mask.end());
   }
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   return result;
 }
 
-- 
2.43.0


From 3711c9f1027f808844e50b8715f625f5a3548e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/13] fix: truncate into windows that keep every token and
 fit with special tokens

Left truncation shifted every window after the first by one token, a
stride not below the maximum length looped forever, maximum length 0 kept
the whole text, unusable parameters crashed, and the room for special
tokens was not reserved.
---
 include/tokenizers/utils.h |   3 +-
 src/tokenizer.cpp          |   7 ++-
 src/utils.cpp              | 118 +++++++++++++++++--------------------
 3 files changed, 61 insertions(+), 67 deletions(-)

diff --git a/include/tokenizers/utils.h b/include/tokenizers/utils.h
index c4dfab9..9b4bf63 100644
--- a/include/tokenizers/utils.h
+++ b/include/tokenizers/utils.h
@@ -32,7 +32,8 @@ class Truncation {
  public:
   Truncation(const std::string &direction, const std::string &strategy,
              int max_length, int stride);
-  Encoding truncate_encoding(Encoding encoding) const;
+  // reserved_length is the number of tokens that will be added afterwards
+  Encoding truncate_encoding(Encoding encoding, int reserved_length = 0) const;
 
  private:
   TRUNCATION_DIRECTION direction;
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 3d359a7..f11d0a0 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -173,7 +173,12 @@ Encoding Tokenizer::do_tokenize(PreTokenizedString pre_tokenized,
 Encoding Tokenizer::do_post_process(Encoding encoding,
                                     bool add_special_tokens) const {
   if (truncation != nullptr) {
-    encoding = truncation->truncate_encoding(encoding);
+    int special_tokens_length =
+        post_processor == nullptr
+            ? 0
+            : post_processor->process(Encoding(), add_special_tokens)
+                  .ids.size();
+    encoding = truncation->truncate_encoding(encoding, special_tokens_length);
   }
   if (post_processor != nullptr) {
     encoding = post_processor->process(encoding, add_special_tokens);
diff --git a/src/utils.cpp b/src/utils.cpp
index efd6d54..9b0b3a3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -44,6 +45,24 @@ Truncation::Truncation(const std::string& direction,
       max_length(max_length),
       stride(stride) {}
 
+Encoding slice(const Encoding& encoding, int start, int stop) {
+  return Encoding(
+      std::vector<int>(encoding.ids.begin() + start,
+                       encoding.ids.begin() + stop),
+      std::vector<int>(encoding.type_ids.begin() + start,
+                       encoding.type_ids.begin() + stop),
+      std::vector<std::string>(encoding.tokens.begin() + start,
+                               encoding.tokens.begin() + stop),
+      std::vector<std::optional<int>>(encoding.words.begin() + start,
+                                      encoding.words.begin() + stop),
+      std::vector<std::pair<int, int>>(encoding.offsets.begin() + start,
+                                       encoding.offsets.begin() + stop),
+      std::vector<int>(encoding.special_tokens_mask.begin() + start,
+                       encoding.special_tokens_mask.begin() + stop),
+      std::vector<int>(encoding.attention_mask.begin() + start,
+                       encoding.attention_mask.begin() + stop));
+}
+
 Encoding truncate(Encoding encoding, int max_length, int stride,
                   TRUNCATION_DIRECTION direction) {
   int encoding_length = encoding.ids.size();
@@ -51,87 +70,56 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
+    Encoding new_encoding;
     encoding.overflowing = {};
-    return encoding;
+    new_encoding.overflowing.push_back(encoding);
+    return new_encoding;
+  }
+  if (max_length < 0 || stride < 0 || stride >= max_length) {
+    throw std::invalid_argument(
+        "Requires 0 <= stride < max_length for truncation!");
   }
   int offset = max_length - stride;
-  bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
   if (direction == RIGHT_TRUNCATION_DIRECTION) {
-    for (int start = 0; start < encoding.ids.size(); start += offset) {
-      if (!end) {
-        int stop = std::min(start + max_length, encoding_length);
-        end = stop == encoding_length;
-        parts_ranges.push_back({start, stop});
-      }
+    int start = 0;
+    while (start + max_length < encoding_length) {
+      parts_ranges.push_back({start, start + max_length});
+      start += offset;
     }
+    parts_ranges.push_back({start, encoding_length});
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
-      int start = stop < max_length ? 0 : stop - max_length;
-      if (start < stop && !end) {
-        end = start == 0;
-        parts_ranges.push_back({start, stop});
-      }
+    int stop = encoding_length;
+    while (stop > max_length) {
+      parts_ranges.push_back({stop - max_length, stop});
+      stop -= offset;
     }
+    parts_ranges.push_back({0, stop});
+  } else {
+    throw std::invalid_argument("Unknown truncation direction!");
   }
-  std::pair<int, int> elem = parts_ranges[0];
-  Encoding new_encoding(
-      std::vector<int>(encoding.ids.begin() + elem.first,
-                       encoding.ids.begin() + elem.second),
-      std::vector<int>(encoding.type_ids.begin() + elem.first,
-                       encoding.type_ids.begin() + elem.second),
-      std::vector<std::string>(encoding.tokens.begin() + elem.first,
-                               encoding.tokens.begin() + elem.second),
-      std::vector<std::optional<int>>(encoding.words.begin() + elem.first,
-                                      encoding.words.begin() + elem.second),
-      std::vector<std::pair<int, int>>(encoding.offsets.begin() + elem.first,
-                                       encoding.offsets.begin() + elem.second),
-      std::vector<int>(encoding.special_tokens_mask.begin() + elem.first,
-                       encoding.special_tokens_mask.begin() + elem.second),
-      std::vector<int>(encoding.attention_mask.begin() + elem.first,
-                       encoding.attention_mask.begin() + elem.second));
-  new_encoding.overflowing = {};
+  Encoding new_encoding =
+      slice(encoding, parts_ranges[0].first, parts_ranges[0].second);
   for (int i = 1; i < parts_ranges.size(); i++) {
-    elem = parts_ranges[i];
-    new_encoding.overflowing.push_back(Encoding(
-        std::vector<int>(encoding.ids.begin() + elem.first,
-                         encoding.ids.begin() + elem.second),
-        std::vector<int>(encoding.type_ids.begin() + elem.first,
-                         encoding.type_ids.begin() + elem.second),
-        std::vector<std::string>(encoding.tokens.begin() + elem.first,
-                                 encoding.tokens.begin() + elem.second),
-        std::vector<std::optional<int>>(encoding.words.begin() + elem.first,
-                                        encoding.words.begin() + elem.second),
-        std::vector<std::pair<int, int>>(
-            encoding.offsets.begin() + elem.first,
-            encoding.offsets.begin() + elem.second),
-        std::vector<int>(encoding.special_tokens_mask.begin() + elem.first,
-                         encoding.special_tokens_mask.begin() + elem.second),
-        std::vector<int>(encoding.attention_mask.begin() + elem.first,
-                         encoding.attention_mask.begin() + elem.second)));
+    new_encoding.overflowing.push_back(
+        slice(encoding, parts_ranges[i].first, parts_ranges[i].second));
   }
   return new_encoding;
 }
 
-Encoding Truncation::truncate_encoding(Encoding encoding) const {
-  if (max_length == 0) {
-    return truncate(encoding, 0, stride, direction);
-  }
-  if (encoding.ids.size() <= max_length) {
+Encoding Truncation::truncate_encoding(Encoding encoding,
+                                       int reserved_length) const {
+  int target_length =
+      max_length < 0 ? max_length : std::max(max_length - reserved_length, 0);
+  if (static_cast<int>(encoding.ids.size()) <= target_length) {
     return encoding;
   }
-  int to_remove = encoding.ids.size() - max_length;
-  if (strategy == LONGEST_FIRST_TRUNCATION_STRATEGY) {
-    encoding =
-        truncate(encoding, encoding.ids.size() - to_remove, stride, direction);
-  } else if (strategy == ONLY_FIRST_TRUNCATION_STRATEGY) {
-    int target_len = encoding.ids.size();
-    if (target_len > to_remove) {
-      encoding = truncate(encoding, max_length, stride, direction);
-    }
+  if (strategy != LONGEST_FIRST_TRUNCATION_STRATEGY &&
+      strategy != ONLY_FIRST_TRUNCATION_STRATEGY) {
+    throw std::invalid_argument(
+        "Truncation strategy cannot truncate the only sequence!");
   }
-  return encoding;
+  return truncate(encoding, target_length, stride, direction);
 }
 
 std::unique_ptr<Truncation> with_truncation(
@@ -201,7 +189,7 @@ Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
                    return pad(overflow_encoding, target_length, pad_id,
                               pad_type_id, pad_token, direction);
                  });
-  if (encoding.ids.size() >= target_length) {
+  if (static_cast<int>(encoding.ids.size()) >= target_length) {
     return encoding;
   }
   int pad_length = target_length - encoding.ids.size();
-- 
2.43.0


From 98ee9dff58477b2531de863f141281419694ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 11/13] fix: implement the declared decoders and map byte-level
 symbols beyond ASCII

Replace, ByteFallback, Fuse and Strip decoders dropped every token, an
empty pattern looped forever, and the byte-level decoder looked up single
bytes so no symbol outside ASCII was mapped back.
---
 src/decoder.cpp | 111 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 98 insertions(+), 13 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..135b554 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -3,6 +3,7 @@
 
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
 #include <iostream>
 #include <memory>
@@ -106,7 +107,10 @@ WordPieceDecoder::WordPieceDecoder(std::string prefix, bool cleanup)
     : prefix(prefix), cleanup(cleanup) {}
 
 std::string replace(std::string input, std::string from, std::string to) {
-  int start = 0;
+  if (from.empty()) {
+    return input;
+  }
+  size_t start = 0;
   while ((start = input.find(from, start)) != std::string::npos) {
     input.replace(start, from.length(), to);
     start += to.length();
@@ -135,8 +139,8 @@ std::vector<std::string> WordPieceDecoder::decode_chain(
   for (int i = 0; i < tokens.size(); i++) {
     std::string token = tokens[i];
     if (i != 0) {
-      if (token.find(prefix) == 0) {
-        token.replace(0, prefix.length(), "");
+      if (token.compare(0, prefix.length(), prefix) == 0) {
+        token.erase(0, prefix.length());
       } else {
         token = " " + token;
       }
@@ -155,21 +159,77 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  for (std::string& token : tokens) {
+    token = replace(token, pattern, content);
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
 
+int hex_value(char digit) {
+  if (digit >= '0' && digit <= '9') {
+    return digit - '0';
+  }
+  if (digit >= 'A' && digit <= 'F') {
+    return digit - 'A' + 10;
+  }
+  if (digit >= 'a' && digit <= 'f') {
+    return digit - 'a' + 10;
+  }
+  return -1;
+}
+
+bool is_valid_utf8(const std::string& bytes) {
+  int32_t i = 0, length = bytes.length();
+  while (i < length) {
+    UChar32 ch;
+    U8_NEXT(bytes.data(), i, length, ch);
+    if (ch < 0) {
+      return false;
+    }
+  }
+  return true;
+}
+
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  auto add_pending_bytes = [&result, &bytes]() {
+    if (is_valid_utf8(bytes)) {
+      if (!bytes.empty()) {
+        result.push_back(bytes);
+      }
+    } else {
+      result.insert(result.end(), bytes.size(), "\uFFFD");
+    }
+    bytes.clear();
+  };
+  for (const std::string& token : tokens) {
+    if (token.length() == 6 && token.compare(0, 3, "<0x") == 0 &&
+        token[5] == '>' && hex_value(token[3]) >= 0 &&
+        hex_value(token[4]) >= 0) {
+      bytes.push_back(
+          static_cast<char>(hex_value(token[3]) * 16 + hex_value(token[4])));
+    } else {
+      add_pending_bytes();
+      result.push_back(token);
+    }
+  }
+  add_pending_bytes();
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::string result;
+  for (const std::string& token : tokens) {
+    result += token;
+  }
+  return {result};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
@@ -177,7 +237,28 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  icu::UnicodeString unicode_content = icu::UnicodeString::fromUTF8(content);
+  if (unicode_content.isEmpty()) {
+    return tokens;
+  }
+  std::string character;
+  icu::UnicodeString(unicode_content.char32At(0)).toUTF8String(character);
+  int length = character.length();
+  for (std::string& token : tokens) {
+    int first = 0, last = token.length();
+    for (int i = 0; i < start && last - first >= length &&
+                    token.compare(first, length, character) == 0;
+         i++) {
+      first += length;
+    }
+    for (int i = 0; i < stop && last - first >= length &&
+                    token.compare(last - length, length, character) == 0;
+         i++) {
+      last -= length;
+    }
+    token = token.substr(first, last - first);
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
@@ -203,15 +284,19 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
+    std::string bytes;
+    bool is_byte_level = true;
     for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
-      if (it != CHAR_BYTES.end()) {
-        result.push_back(static_cast<char>(it->second));
-      } else {
-        result.push_back(ch);
+      std::string ch;
+      unicode_token.tempSubString(i, 1).toUTF8String(ch);
+      auto it = CHAR_BYTES.find(ch);
+      if (it == CHAR_BYTES.end()) {
+        is_byte_level = false;
+        break;
       }
+      bytes.push_back(static_cast<char>(it->second));
     }
+    result += is_byte_level ? bytes : token;
   }
 
   return {result};
-- 
2.43.0


From 447ae58d7ed3cc243679d262485b4c313cbe4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 12/13] fix: pass Java strings as UTF-16 and errors as Java
 exceptions

Supplementary characters reached the tokenizer as surrogate pairs, text
crossed the boundary as modified UTF-8 (NUL and supplementary characters
were damaged or crashed), and C++ exceptions terminated the machine.
---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 110 ++++++++++++++----
 1 file changed, 90 insertions(+), 20 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..a4ffee4 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,41 +1,111 @@
 #include <jni.h>
+#include <unicode/unistr.h>
 
+#include <exception>
+#include <new>
 #include <string>
 #include <vector>
 
 #include "tokenizers/tokenizer.h"
 
+namespace {
+
+void throw_java_exception(JNIEnv *env, const char *class_name,
+                          const char *message) {
+  if (env->ExceptionCheck()) {
+    return;
+  }
+  jclass exception_class = env->FindClass(class_name);
+  if (exception_class != nullptr) {
+    env->ThrowNew(exception_class, message);
+  }
+}
+
+bool is_null(JNIEnv *env, const void *reference) {
+  if (reference != nullptr) {
+    return false;
+  }
+  throw_java_exception(env, "java/lang/NullPointerException",
+                       "Requires a non-null argument!");
+  return true;
+}
+
+icu::UnicodeString to_unicode_string(JNIEnv *env, jstring str) {
+  jsize length = env->GetStringLength(str);
+  icu::UnicodeString unicode_str;
+  char16_t *buffer = unicode_str.getBuffer(length);
+  if (buffer == nullptr) {
+    throw std::bad_alloc();
+  }
+  env->GetStringRegion(str, 0, length, reinterpret_cast<jchar *>(buffer));
+  unicode_str.releaseBuffer(length);
+  return unicode_str;
+}
+
+// Runs a native call, turning its exceptions into Java exceptions.
+template <typename T, typename F>
+T call_native(JNIEnv *env, F call) {
+  try {
+    return call();
+  } catch (const std::exception &e) {
+    throw_java_exception(env, "java/lang/RuntimeException", e.what());
+  } catch (...) {
+    throw_java_exception(env, "java/lang/RuntimeException", "Unknown error");
+  }
+  return T();
+}
+
+}  // namespace
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
-  const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
-  env->ReleaseStringUTFChars(config, config_str);
-  return (jlong)tokenizer;
+  if (is_null(env, config)) {
+    return 0;
+  }
+  return call_native<jlong>(env, [&]() {
+    std::string config_str;
+    to_unicode_string(env, config).toUTF8String(config_str);
+    return (jlong) new Tokenizer("", config_str);
+  });
 }
 extern "C" JNIEXPORT jintArray JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
                                            jlong native_ptr, jstring sequence,
                                            jboolean add_special_tokens) {
+  if (is_null(env, sequence)) {
+    return nullptr;
+  }
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
-  const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
-  jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
-  env->ReleaseStringChars(sequence, sequence_str);
-  Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
-  jintArray ids_array = env->NewIntArray(encoding.ids.size());
-  env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
-                         encoding.ids.data());
-  return ids_array;
+  return call_native<jintArray>(env, [&]() {
+    icu::UnicodeString unicode_sequence = to_unicode_string(env, sequence);
+    std::wstring wsequence;
+    for (int i = 0; i < unicode_sequence.length();
+         i = unicode_sequence.moveIndex32(i, 1)) {
+      wsequence.push_back(unicode_sequence.char32At(i));
+    }
+    Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
+    jintArray ids_array = env->NewIntArray(encoding.ids.size());
+    if (ids_array != nullptr) {
+      env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
+                             encoding.ids.data());
+    }
+    return ids_array;
+  });
 }
 extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
     JNIEnv *env, jobject thiz, jlong native_ptr, jintArray ids,
     jboolean skip_special_tokens) {
+  if (is_null(env, ids)) {
+    return nullptr;
+  }
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
-  jsize length = env->GetArrayLength(ids);
-  jint *ids_array = env->GetIntArrayElements(ids, nullptr);
-  std::vector<int> ids_vector(ids_array, ids_array + length);
-  env->ReleaseIntArrayElements(ids, ids_array, 0);
-  std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  return env->NewStringUTF(decoded.c_str());
-}
\ No newline at end of file
+  return call_native<jstring>(env, [&]() {
+    std::vector<int> ids_vector(env->GetArrayLength(ids));
+    env->GetIntArrayRegion(ids, 0, ids_vector.size(), ids_vector.data());
+    icu::UnicodeString decoded = icu::UnicodeString::fromUTF8(
+        tokenizer->decode(ids_vector, skip_special_tokens));
+    return env->NewString(reinterpret_cast<const jchar *>(decoded.getBuffer()),
+                          decoded.length());
+  });
+}
-- 
2.43.0


From abbb90edacc235ef95bd1a0ce3778db3085cd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 13/13] fix: bound the longest-match search by the longest
 vocabulary entry

Words allowed by a large max_input_chars_per_word took cubic time.
---
 include/tokenizers/model.h |  3 +++
 src/model.cpp              | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 2b3bc67..142899c 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -50,6 +50,9 @@ class WordPiece : public Model {
                      const std::string &unk_token = "[UNK]",
                      int max_input_chars_per_word = 100,
                      const std::string &continuing_subword_prefix = "##");
+
+ private:
+  int longest_entry;
 };
 
 class Symbol {
diff --git a/src/model.cpp b/src/model.cpp
index 1c3e19c..d45840a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <mutex>
@@ -138,7 +139,13 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
     : Model(vocab),
       unk_token(unk_token),
       max_input_chars_per_word(max_input_chars_per_word),
-      continuing_subword_prefix(continuing_subword_prefix) {}
+      continuing_subword_prefix(continuing_subword_prefix),
+      longest_entry(0) {
+  for (const auto& entry : vocab) {
+    longest_entry =
+        std::max(longest_entry, static_cast<int>(entry.first.length()));
+  }
+}
 
 // Byte positions at which the characters of a UTF-8 string start, and its end.
 std::vector<int> char_boundaries(const std::string& sequence) {
@@ -173,6 +180,9 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     std::vector<Token> sub_tokens;
     while (start < char_len) {
       int end = char_len;
+      while (boundaries[end] - boundaries[start] > longest_entry) {
+        end -= 1;
+      }
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
         std::string sub_sequence = split.normalized.substr(
-- 
2.43.0

