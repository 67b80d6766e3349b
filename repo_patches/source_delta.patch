From 41c3b87b8420d5e3dc179d89f9c6e36da90faafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 01/14] fix: a match may start exactly at its included keyword

is_index_within_prefix asserted target > prefix_start, but the search for a
match starts at the keyword itself, so builds with debug assertions panicked
when the rule's pattern matches the keyword.
---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..d7853c5 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -128,7 +128,7 @@ pub fn is_index_within_prefix(
     target: usize,
     prefix_size: usize,
 ) -> bool {
-    debug_assert!(target > prefix_start);
+    debug_assert!(target >= prefix_start);
     debug_assert!(content.is_char_boundary(prefix_start));
     debug_assert!(content.is_char_boundary(target));
 
-- 
2.43.0


From 49849ed6980cfa38f0e6af961beed65f53d99bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 02/14] fix: validate_matches dropped matches of rules without
 match validation

All matches are drained from the list, but only those of rules with a match
validator were put back.
---
 sds/src/scanner/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..a333641 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches from rules without match validation are returned unchanged
+        let mut unchecked_rule_matches = Vec::new();
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                unchecked_rule_matches.push(rule_match);
             }
         }
 
@@ -420,6 +424,7 @@ impl Scanner {
         );
 
         // Refill the rule_matches with the validated matches
+        rule_matches.append(&mut unchecked_rule_matches);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From 43fba46f478e234c9692c69bf2e29e94fb426158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:10 +0000
Subject: [PATCH 03/14] fix: rule patterns and keyword patterns collided in the
 regex store

The global store memoizes by pattern only, but keyword patterns are compiled
case-insensitively and without the rule normalization. A rule whose pattern
equals the pattern of a keyword that is alive anywhere in the process got the
keyword's regex (and the other way round).
---
 sds/src/proximity_keywords/mod.rs    | 9 +++++++--
 sds/src/scanner/regex_rule/config.rs | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index d7853c5..2b67fad 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -229,9 +229,14 @@ fn compile_keywords(
         )
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
+    // The keys have a prefix since the same store also holds the regexes of the rules, which are
+    // compiled differently
+    let content_key = format!("keywords:{content_pattern}");
+    let path_key = format!("keywords:{path_pattern}");
+
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        get_memoized_regex(&content_key, |_| regex_builder.build(&content_pattern)).unwrap(),
+        get_memoized_regex(&path_key, |_| regex_builder.build(&path_pattern)).unwrap(),
     )))
 }
 
diff --git a/sds/src/scanner/regex_rule/config.rs b/sds/src/scanner/regex_rule/config.rs
index c855fff..95b378c 100644
--- a/sds/src/scanner/regex_rule/config.rs
+++ b/sds/src/scanner/regex_rule/config.rs
@@ -95,7 +95,10 @@ impl RuleConfig for RegexRuleConfig {
         rule_index: usize,
         scanner_labels: Labels,
     ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
-        let regex = get_memoized_regex(&self.pattern, validate_and_create_regex)?;
+        // The key has a prefix since the same store also holds the (case-insensitive) keyword regexes
+        let regex = get_memoized_regex(&format!("rule:{}", self.pattern), |_| {
+            validate_and_create_regex(&self.pattern)
+        })?;
         self.match_action.validate()?;
 
         let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());
-- 
2.43.0


From 1e22a05146ae7c8b5caeac00542e485cbf975f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:10 +0000
Subject: [PATCH 04/14] fix: count the cache of new regexes in
 scanner.total_regex_cache_size

The gauge was only ever decremented, so it went negative as soon as a regex
was dropped.
---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From f8f3435543836b056e437be01ecbc53e66297d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 05/14] fix: excluded keywords next to a stripped character
 were missed

The chars added on both sides of the searched prefix for assertion checking
were assumed to survive the removal of '-' and '_'. When one of them was
removed, a char of the prefix was cut off instead, e.g. the excluded keyword
"test" was not found in "-test 123" with a look-ahead of 5.
---
 .../proximity_keywords/excluded_keywords.rs   | 40 +++++++------------
 sds/src/proximity_keywords/mod.rs             | 13 ++----
 2 files changed, 18 insertions(+), 35 deletions(-)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..2255926 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -1,6 +1,5 @@
 use crate::proximity_keywords::{
-    get_prefix_start, next_char_index, prev_char_index, ProximityKeywordsRegex,
-    EXCLUDED_KEYWORDS_REMOVED_CHARS,
+    get_prefix_start, ProximityKeywordsRegex, EXCLUDED_KEYWORDS_REMOVED_CHARS,
 };
 use metrics::Counter;
 use regex_automata::Input;
@@ -35,29 +34,20 @@ fn contains_excluded_keyword_match(
     look_ahead_char_count: usize,
     regex: &ProximityKeywordsRegex,
 ) -> bool {
-    let prefix_start_info = get_prefix_start(
-        match_start,
-        // Adding 1 to the start to account for assertion checking
-        look_ahead_char_count + 1,
-        content,
-    );
-
-    // Adding 1 char here to allow correct assertion checking on the last char. There will always be
-    // at least 1 more char is always available since empty matches aren't allowed
-    let prefix_end = next_char_index(content, match_start).unwrap_or(content.len());
-
-    let stripped_prefix =
-        content[prefix_start_info.start..prefix_end].replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
-
-    // Subtracting one to exclude the last char which was added only for boundary checking
-    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);
-
-    let span_start = if prefix_start_info.used_all_chars {
-        // an extra char was added for assertion checking, so it needs to be removed here
-        next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
-    } else {
-        0
-    };
+    let prefix_start = get_prefix_start(match_start, look_ahead_char_count, content).start;
+    let is_kept = |c: &char| !EXCLUDED_KEYWORDS_REMOVED_CHARS.contains(c);
+
+    // One char is added on each side of the prefix to allow correct assertion checking. These are
+    // the closest chars that are not removed, so they don't take the place of a char of the prefix.
+    let char_before = content[..prefix_start].chars().rev().find(is_kept);
+    let char_after = content[match_start..].chars().find(is_kept);
+
+    let mut stripped_prefix = String::new();
+    stripped_prefix.extend(char_before);
+    let span_start = stripped_prefix.len();
+    stripped_prefix.extend(content[prefix_start..match_start].chars().filter(is_kept));
+    let span_end = stripped_prefix.len();
+    stripped_prefix.extend(char_after);
 
     let input = Input::new(&stripped_prefix)
         .earliest(true)
diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 2b67fad..e811df7 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -112,14 +112,13 @@ fn next_char_index(content: &str, start: usize) -> Option<usize> {
         .map(|(i, _c)| start + i)
 }
 
+#[cfg(test)]
 fn prev_char_index(content: &str, start: usize) -> Option<usize> {
     content[..start].char_indices().next_back().map(|(i, _c)| i)
 }
 
 pub struct PrefixStart {
     pub start: usize,
-    // A boolean indicating if all of the chars requested were available for the prefix
-    pub used_all_chars: bool,
 }
 
 pub fn is_index_within_prefix(
@@ -153,14 +152,8 @@ pub fn get_prefix_start(
     let mut char_indices = prefix.char_indices();
 
     match char_indices.nth_back(look_ahead_char_count - 1) {
-        Some((i, _)) => PrefixStart {
-            start: i,
-            used_all_chars: true,
-        },
-        None => PrefixStart {
-            start: 0,
-            used_all_chars: false,
-        },
+        Some((i, _)) => PrefixStart { start: i },
+        None => PrefixStart { start: 0 },
     }
 }
 
-- 
2.43.0


From 916d31a8489ce034d1ad6154261e40c39f23646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 06/14] fix: scanning never ended on an empty match

validate_regex only rejects patterns that match the empty string, so patterns
like `\b\d*` are accepted, and the search for the next match restarted at
the end of the (empty) match for ever.
---
 sds/src/scanner/regex_rule/compiled.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..1d807d0 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -274,13 +274,16 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
             let input = Input::new(self.content).range(self.start..);
 
             if let Some(regex_match) = self.rule.regex.search_with(self.cache, &input) {
-                // this is only checking extra validators (e.g. checksums)
-                let is_false_positive_match = is_false_positive_match(
-                    &regex_match,
-                    self.rule,
-                    self.content,
-                    self.check_excluded_keywords,
-                );
+                // Patterns that match the empty string are rejected, but some patterns can still
+                // have an empty match inside of other content (e.g. `\b\d*`). These are ignored.
+                let is_false_positive_match = regex_match.is_empty()
+                    // this is only checking extra validators (e.g. checksums)
+                    || is_false_positive_match(
+                        &regex_match,
+                        self.rule,
+                        self.content,
+                        self.check_excluded_keywords,
+                    );
 
                 if is_false_positive_match {
                     if let Some(next) = get_next_regex_start(self.content, &regex_match) {
@@ -291,7 +294,7 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
                     }
                 } else {
                     // The next match will start at the end of this match. This is fine because
-                    // patterns that can match empty matches are rejected.
+                    // empty matches are ignored.
                     self.start = regex_match.end();
 
                     if self.exclusion_check.is_excluded(self.rule.rule_index) {
-- 
2.43.0


From 7b9279a724832e9f0a057c5a2b89a9fa6a52b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 07/14] fix: NhsCheckDigit accepted numbers that don't have 10
 digits

e.g. "", "0" and "00000000000" (11 digits).
---
 sds/src/secondary_validation/nhs_check_digit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..bb56541 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -2,6 +2,8 @@ use crate::secondary_validation::{get_previous_digit, Validator};
 
 pub struct NhsCheckDigit;
 
+const NHS_NUMBER_LENGTH: usize = 10;
+
 fn nhs_multiplier_from_number_idx(index: usize) -> u32 {
     11 - ((index + 1) as u32)
 }
@@ -17,7 +19,7 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit >= NHS_NUMBER_LENGTH {
                 return false;
             }
             if nb_digit < 9 {
@@ -29,6 +31,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != NHS_NUMBER_LENGTH {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 9df5b63cbfd8346bce35c43c6a506d6e1f8b2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 08/14] fix: GithubTokenChecksum rejected tokens with a small
 checksum

The Base62 checksum of a token is padded with leading zeros to 6 chars.
---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..c2442a8 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // The checksum is always 6 chars long, padded with leading zeros
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From bf97d5c3797e27b7d20eda3f65fa35c6f8b52722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 09/14] fix: scanning a JSON event panicked on a match in a
 number or boolean

visit_event visits numbers and booleans as strings, but visit_string_mut only
supported strings.
---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..bb2c692 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            // These are scanned as strings, so they become strings if they are modified
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                let mut text = value.to_string();
+                if (visit)(&mut text) {
+                    *value = serde_json::Value::String(text);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From d0b65a872ccf526c0a7973cd1597688195fb67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 10/14] fix: a quantifier on $ or \Z was only applied to its
 last part

e.g. `a$*` was converted to `a\x{A}?$*`, which matches a newline that is
not at the end.
---
 sds/src/normalization/rust_regex_adapter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..e17d89e 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,7 +119,22 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(convert_ast(&repetition.inner)?),
+            ast: Box::new(
+                match (repetition.inner.as_ref(), convert_ast(&repetition.inner)?) {
+                    // Some assertions (e.g. `$`) are converted to multiple items, and all of them are repeated
+                    (SdsAst::Assertion(_), concat @ RegexAst::Concat(_)) => {
+                        RegexAst::Group(RegexGroup {
+                            span: span(),
+                            kind: RegexGroupKind::NonCapturing(RegexFlags {
+                                span: span(),
+                                items: vec![],
+                            }),
+                            ast: Box::new(concat),
+                        })
+                    }
+                    (_, ast) => ast,
+                },
+            ),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
-- 
2.43.0


From 9fb7f84abaac4a38e73bdafc01477ce4cec20303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 11/14] fix: escaped non-ASCII whitespace was ignored under the
 x flag

---
 sds/src/normalization/rust_regex_adapter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index e17d89e..aabc1e0 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -24,7 +24,6 @@ use regex_syntax::ast::{
 };
 use std::rc::Rc;
 
-const ASCII_WHITESPACE_CHARS: &[char] = &['\x0D', '\x0A', '\x09', '\x0C', '\x0B', '\x20'];
 pub const QUANTIFIER_LIMIT: u32 = 3000;
 /// This takes an SDS style regex pattern and converts it to a pattern
 /// compatible with the Rust `regex` crate.
@@ -453,7 +452,7 @@ fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
         // used in a bracketed character class, all whitespace is hex encoded to ensure it
         // is never ignored.
         RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
-    } else if kind == LiteralKind::Normal && ASCII_WHITESPACE_CHARS.contains(&literal.c) {
+    } else if kind == LiteralKind::Normal && literal.c.is_whitespace() {
         // The HexBrace kind is usually preferred since it makes whitespace characters easier
         // to read, but escaping whitespace can change the behavior of the `x` (extended / verbose)
         // flag, so the format is kept for those
-- 
2.43.0


From e3362e6730673e09d7e5b71d36694816c5110246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 12/14] fix: report an error instead of panicking when an AWS
 validation request cannot be signed

An id match that does not fit in a header (it may hold control characters)
or an STS endpoint that is not a URL made validate_matches panic.
---
 sds/src/match_validation/aws_validator.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..572fd2e 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -75,6 +75,12 @@ fn extract_aws_secret_from_match(match_value: &str) -> String {
     "".to_string()
 }
 
+fn check_signable(endpoint: &str, aws_id: &str) -> Result<(), String> {
+    reqwest::Url::parse(endpoint).map_err(|err| err.to_string())?;
+    reqwest::header::HeaderValue::from_str(aws_id).map_err(|err| err.to_string())?;
+    Ok(())
+}
+
 fn merge_returned_match_status_with_better_status(
     matches: &mut [RuleMatch],
     match_status_per_pairs_of_matches_idx: &AHashMap<(usize, usize), MatchStatus>,
@@ -139,6 +145,14 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // A request can only be signed for a valid URL and an id that fits in a header
+                if let Err(err) = check_signable(&self.config.aws_sts_endpoint, match_id) {
+                    *match_status = MatchStatus::Error(fmt::format(format_args!(
+                        "Error making HTTP request: {}",
+                        err
+                    )));
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0


From 4c09a9c9e2eaf879e64fbc3e4f20d0f3edcbe9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:38 +0000
Subject: [PATCH 13/14] fix: refuse events with map keys that are not valid
 UTF-8 in the Go bindings

The paths of the response are UTF-8, so the redacted value was written under
another key, or following the path failed with a nil pointer.
---
 sds-go/go/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds-go/go/scanner.go b/sds-go/go/scanner.go
index ffaf8a8..53165fa 100644
--- a/sds-go/go/scanner.go
+++ b/sds-go/go/scanner.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -226,6 +227,10 @@ func encodeValueRecursive(v interface{}, result []byte) ([]byte, error) {
 
 func encodeMapEvent(event map[string]interface{}, result []byte) ([]byte, error) {
 	for k, v := range event {
+		if !utf8.ValidString(k) {
+			// the matches on its values would come back under another path
+			return result, fmt.Errorf("encodeMapEvent: key %q is not valid UTF-8", k)
+		}
 		// // push path field
 		result = append(result, 0)                                     // push map type
 		result = binary.BigEndian.AppendUint32(result, uint32(len(k))) // length of the key
-- 
2.43.0


From f7c35cbfed0145433b1912027927675b1566a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:17 +0000
Subject: [PATCH 14/14] fix: total_scanners gauge keeps an outdated value after
 concurrent updates

---
 sds/src/stats.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sds/src/stats.rs b/sds/src/stats.rs
index 51bd129..f3e8c46 100644
--- a/sds/src/stats.rs
+++ b/sds/src/stats.rs
@@ -43,10 +43,17 @@ impl Stats {
     }
 
     fn update_total_scanners(&self, delta: i64) {
-        let prev_value = self
-            .total_scanners_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_scanners.set((prev_value + delta) as f64);
+        let mut value = self.total_scanners_count.fetch_add(delta, Ordering::SeqCst) + delta;
+        loop {
+            self.total_scanners.set(value as f64);
+            // Another thread may have set a newer value before this one did, so make sure that the
+            // gauge isn't left with an outdated value.
+            let current = self.total_scanners_count.load(Ordering::SeqCst);
+            if current == value {
+                break;
+            }
+            value = current;
+        }
     }
 
     pub fn set_total_regexes(&self, total_regexes: usize) {
-- 
2.43.0

