"""Fifth campaign: sizes, rare Unicode, rare combinations, in the files that the test build compiles."""
S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"; M = S + "scanner/mod.rs"
K = S + "proximity_keywords/mod.rs"; IK = S + "proximity_keywords/included_keywords.rs"; EK = S + "proximity_keywords/excluded_keywords.rs"
R = S + "normalization/rust_regex_adapter.rs"; RP = S + "parser/regex_parser.rs"; UP = S + "parser/unicode_property_names.rs"
SR = S + "scoped_ruleset/mod.rs"; BS = S + "scoped_ruleset/bool_set.rs"
V = S + "secondary_validation/"; MS = S + "match_validation/match_status.rs"; VA = S + "validation.rs"
RS = S + "scanner/regex_rule/regex_store.rs"; CS = S + "scanner/regex_rule/regex_cache_store.rs"; CFG = S + "scanner/regex_rule/config.rs"
B = "sds-bindings-utils/src/binary_encoding.rs"; EJ = S + "event_json.rs"; SE = S + "simple_event.rs"; PA = S + "path.rs"
ST = S + "stats.rs"; L = S + "observability/labels.rs"; SC = S + "scanner/scope.rs"; ME = S + "scanner/metrics.rs"
MUTANTS = [
 ("merge-long-error", "P21 P22", [(MS, "        if new_status > *self {", "        if matches!((&*self, &new_status), (MatchStatus::Error(_), MatchStatus::Error(_))) {\n            return;\n        }\n        if new_status > *self {")]),
 ("label-empty-value", "P16 P22", [(L, "seq.serialize_element(&vec![label.key(), label.value()])?;", "seq.serialize_element(&vec![label.key(), label.value().trim_end()])?;")]),
 ("label-clone-dup", "P16", [(L, "        tags.extend(additional_labels.into_labels());", "        for label in additional_labels.into_labels() {\n            if !tags.contains(&label) {\n                tags.push(label);\n            }\n        }")]),
 ("label-override", "P16", [(L, "        tags.extend(additional_labels.into_labels());", "        let extra = additional_labels.into_labels();\n        tags.retain(|t| !extra.iter().any(|e| e.key() == t.key()));\n        tags.extend(extra);")]),
 ("metrics-nolabel", "P16", [(ME, "            duration_ns: counter!(\"scanning.duration\", labels.clone()),", "            duration_ns: counter!(\"scanning.duration\"),")]),
 ("skip-uncond", "P07 P01", [(IK, "        if start > self.start {\n            self.start = start;\n        }", "        self.start = start;")]),
 ("kw-not-earliest", "P07", [(IK, ".range(self.start..).earliest(true);", ".range(self.start..).earliest(false);")]),
 ("kw-long-content", "P07", [(IK, "            self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());", "            self.start = if self.content.len() > 8192 {\n                included_keyword_match.end()\n            } else {\n                next_char_index(self.content, included_keyword_match.start())\n                    .unwrap_or(included_keyword_match.end())\n            };")]),
 ("kw-cont-slice", "P07", [(IK, "let input = Input::new(self.content).range(self.start..).earliest(true);", "let input = Input::new(&self.content[..self.content.len().min(65536)]).range(self.start.min(65536)..).earliest(true);")]),
 ("ek-before-space", "P08", [(EK, "let char_before = content[..prefix_start].chars().rev().find(is_kept);", "let char_before = content[..prefix_start].chars().next_back();")]),
 ("ek-after-none", "P08", [(EK, "let char_after = content[match_start..].chars().find(is_kept);", "let char_after = content[match_start..].chars().next();")]),
 ("prefix-nth", "P08 P07", [(K, "    let prefix = &content[0..match_start];", "    let mut lower = match_start.saturating_sub(look_ahead_char_count * 3);\n    while !content.is_char_boundary(lower) {\n        lower += 1;\n    }\n    if match_start - lower >= look_ahead_char_count * 3 - 3 && content[lower..match_start].chars().count() < look_ahead_char_count {\n        return PrefixStart { start: lower };\n    }\n    let prefix = &content[0..match_start];")]),
 ("kw-trim-ascii", "P07 P22", [(K, "let trimmed_keyword = keyword.trim().replace(remove_chars, \"\");", "let trimmed_keyword = keyword.trim_matches(|c: char| c.is_ascii_whitespace()).replace(remove_chars, \"\");")]),
 ("kw-trim-after", "P08", [(K, "let trimmed_keyword = keyword.trim().replace(remove_chars, \"\");", "let trimmed_keyword = keyword.replace(remove_chars, \"\").trim().to_string();")]),
 ("kw-last-boundary-unicode", "P07", [(K, "    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast::Concat", "    if keyword.chars().next_back().unwrap().is_alphanumeric() {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast::Concat")]),
 ("kw-nfa-limit", "P22 P07", [(K, "                .nfa_size_limit(None)", "                .nfa_size_limit(Some(1 << 20))")]),
 ("kw-sorted", "P07 P15", [(K, "    let mut builder = meta::Regex::builder();\n    let regex_builder", "    let content_pattern = if keywords.len() > 40 { content_pattern.replace(\"||\", \"|\").rsplitn(2, '|').last().unwrap().to_string() } else { content_pattern };\n    let mut builder = meta::Regex::builder();\n    let regex_builder")]),
 ("val-empty-long", "P03", [(VA, "    if regex.is_match(\"\") {", "    if input.len() < 256 && regex.is_match(\"\") {")]),
 ("val-empty-anchor", "P03", [(VA, "    if regex.is_match(\"\") {", "    if regex.find(\"\").map_or(false, |m| m.is_empty()) && !input.contains(\"\\\\b\") && !input.contains(\"\\\\B\") {")]),
 ("est-low", "P03", [(VA, "    let mut low = 1;", "    let mut low = 2;")]),
 ("est-high", "P03", [(VA, "let mut high = 10 * REGEX_COMPLEXITY_LIMIT;", "let mut high = 4 * REGEX_COMPLEXITY_LIMIT;")]),
 ("prop-one", "P02 P03", [(UP, "    \"Vai\",", "    \"Vai_\",")]),
 ("prop-last", "P02 P03", [(RP, "    if UNICODE_PROPERTY_NAMES.contains(&name.value) {", "    if UNICODE_PROPERTY_NAMES[..UNICODE_PROPERTY_NAMES.len() - 1].contains(&name.value) {")]),
 ("cap-p", "P02 P03", [(RP, "            alt((tag(\"(?<\"), tag(\"(?P<\"))),", "            tag(\"(?<\"),")]),
 ("noncap-restore", "P03", [(RP, "        Ok((mut input, group)) => {\n            input.depth -= 1;\n            Ok((input, group))", "        Ok((mut input, group)) => {\n            if !matches!(group, Group::NamedCapturing(_)) {\n                input.depth -= 1;\n            }\n            Ok((input, group))")]),
 ("hex-four", "P02 P03", [(RP, "        u32::from_str_radix(hex_string.value, 16)\n            .map_err", "        u32::from_str_radix(hex_string.value.trim_end_matches(' '), 16)\n            .map_err")]),
 ("hex-bmp", "P02 P03", [(RP, "    let c = char::from_u32(hex_value).ok_or(nom::Err::Failure(ParseError::InvalidSyntax))?;", "    let c = char::from_u32(hex_value & 0x1f_ffff).ok_or(nom::Err::Failure(ParseError::InvalidSyntax))?;")]),
 ("quote-long", "P02", [(RP, "    let ast = match literals.len() {\n        0 => Ast::Empty,", "    let ast = match literals.len() {\n        0 => Ast::Concat(vec![]),")]),
 ("class-empty-quote", "P02 P03", [(RP, "    if items.is_empty() {\n        // An empty", "    if items.is_empty() && closing_bracket.is_none() && negated.is_none() {\n        // An empty")]),
 ("close-last", "P02", [(RP, "items.insert(0, BracketCharacterClassItem::Literal(']'));", "if !items.is_empty() || negated.is_none() {\n            items.push(BracketCharacterClassItem::Literal(']'));\n        }")]),
 ("flags-none", "P02", [(RP, "            remove: remove.map(|x| x.1).unwrap_or(vec![]),", "            remove: remove.map(|x| x.1).unwrap_or(vec![]).into_iter().take(2).collect(),")]),
 ("min-max-eq", "P02", [(R, "                        RegexRepetitionKind::Range(RepetitionRange::Bounded(min, max))", "                        if min == max {\n                            RegexRepetitionKind::Range(RepetitionRange::Exactly(max))\n                        } else if min == 0 && max > 1000 {\n                            RegexRepetitionKind::ZeroOrMore\n                        } else {\n                            RegexRepetitionKind::Range(RepetitionRange::Bounded(min, max))\n                        }")]),
 ("simple-message-case", "P17", [(SE, "if key == FIRST_VISIT_KEY {", "if key.trim() == FIRST_VISIT_KEY {")]),
 ("simple-big-list", "P17", [(SE, "visitor.push_segment(PathSegment::Index(i));", "visitor.push_segment(PathSegment::Index(i & 0xfff));")]),
 ("json-bool", "P17", [(EJ, "                let mut text = value.to_string();\n                if (visit)", "                let mut text = value.to_string();\n                if value.is_boolean() {\n                    return;\n                }\n                if (visit)")]),
 ("json-u64", "P17", [(EJ, "let _result = visitor.visit_string(number.to_string().as_str());", "let _result = visitor.visit_string(number.as_f64().filter(|_| number.as_i64().is_none()).map_or_else(|| number.to_string(), |f| f.to_string()).as_str());")]),
 ("path-into-static", "P06 P17", [(PA, "PathSegment::Field(cow) => PathSegment::Field(Cow::Owned(cow.as_ref().to_owned())),", "PathSegment::Field(cow) => PathSegment::Field(Cow::Owned(cow.trim_end_matches('\\0').to_owned())),")]),
 ("sanitize-upper-seg", "P09", [(PA, "                    sanitized_path.push_str(field.to_ascii_lowercase().as_str())", "                    sanitized_path.push_str(field.get(..256).unwrap_or(field).to_ascii_lowercase().as_str())")]),
 ("kwlen-chars", "P09", [(K, "    let kw_length = characters.len();", "    let kw_length = characters.chars().count();")]),
 ("scope-many-children", "P10", [(SR, "            .or_insert_with(RuleTree::new);\n            child_tree.insert_rule_inner(remaining, rule_change);", "            .or_insert_with(RuleTree::new);\n            if remaining.is_empty() && child_tree.rule_changes.len() > 60 {\n                return;\n            }\n            child_tree.insert_rule_inner(remaining, rule_change);")]),
 ("scope-deep", "P10", [(SR, "        if let Some((first, remaining)) = path.split_first() {", "        let path = if path.len() > 6 { &path[..6] } else { path };\n        if let Some((first, remaining)) = path.split_first() {")]),
 ("pop-count", "P10", [(SR, "        for _ in 0..node_counter.active_tree_count {", "        for _ in 0..node_counter.active_tree_count.min(3) {")]),
 ("wild-flag-two", "P10", [(SR, "            if include_node.index_wildcard_match {\n                // This is guaranteed", "            if include_node.index_wildcard_match && self.used_rule_set.is_none() {\n                // This is guaranteed")]),
 ("bool-grow", "P10", [(BS, "        let result = self.rule_used[index];\n        self.rule_used[index] = true;", "        let slot = index % 192.min(self.rule_used.len());\n        let index = if self.rule_used.len() > 192 { slot } else { index };\n        let result = self.rule_used[index];\n        self.rule_used[index] = true;")]),
 ("stats-u16", "P16", [(ST, "        self.total_regexes.set(total_regexes as f64)", "        self.total_regexes.set((total_regexes as u16) as f64)")]),
 ("stats-cache-neg", "P16", [(ST, "        self.total_regex_cache_size.set((prev_value + delta) as f64);", "        if delta > 0 {\n            self.total_regex_cache_size.set((prev_value + delta) as f64);\n        }")]),
 ("stats-loop", "P16", [(ST, "            let current = self.total_scanners_count.load(Ordering::SeqCst);\n            if current == value {\n                break;\n            }\n            value = current;", "            let current = self.total_scanners_count.load(Ordering::SeqCst);\n            if current <= value {\n                break;\n            }\n            value = current;")]),
 ("gc-keeps-index", "P15 P16", [(RS, "        GLOBAL_STATS.set_total_regexes(self.key_map.len());\n    }\n\n    /// Check", "    }\n\n    /// Check")]),
 ("store-get-stale", "P15", [(RS, "        if let Some(existing_regex) = self.get(pattern) {\n            existing_regex", "        if let Some(existing_regex) = self.get(pattern.trim_end()) {\n            existing_regex")]),
 ("store-get-key", "P15", [(RS, "        self.pattern_index.get(pattern).and_then(|cache_key| {", "        self.pattern_index.get(pattern).or_else(|| self.pattern_index.get(pattern.trim_end_matches('?'))).and_then(|cache_key| {")]),
 ("store-key-hash", "P15", [(CFG, "get_memoized_regex(&format!(\"rule:{}\", self.pattern), |_| {", "get_memoized_regex(&format!(\"rule:{}\", self.pattern.split_whitespace().collect::<Vec<_>>().join(\" \")), |_| {")]),
 ("cfg-build-scope", "P22 P10", [(CFG, "            scope: self.scope.clone(),\n            proximity_keywords: self.proximity_keywords.clone(),\n            validator: self.validator.clone(),\n            labels: self.labels.clone(),\n\n            match_validation_type: self.match_validation_type.clone(),\n        })", "            scope: self.scope.clone(),\n            proximity_keywords: self.proximity_keywords.clone().filter(|k| !k.included_keywords.is_empty() || k.excluded_keywords.len() < 2),\n            validator: self.validator.clone(),\n            labels: self.labels.clone(),\n\n            match_validation_type: self.match_validation_type.clone(),\n        })")]),
 ("scope-include-excl", "P10 P22", [(SC, "        Self::Include { include, exclude }", "        let exclude = exclude.into_iter().filter(|e| include.iter().any(|i| e.starts_with(i))).collect();\n        Self::Include { include, exclude }")]),
 ("starts-index", "P10 P17", [(PA, "            if a != b {\n                return false;", "            if a != b && !(a.is_index() && b.is_index() && self.len() > 8) {\n                return false;")]),
 ("bin-storage-last", "P18", [(B, "if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {", "if visit_result.might_mutate {")]),
 ("bin-mut-or", "P18", [(B, "        content.0 = was_mutated;", "        content.0 = was_mutated || content.1.is_empty();")]),
 ("bin-tag", "P18 P19", [(B, "            encode_mutation(&mut out, path, content);", "            if out.len() < (1 << 20) {\n                encode_mutation(&mut out, path, content);\n            }")]),
 ("luhn-fullwidth", "P12", [(V+"mod.rs", "    while let Some(char) = chars.next_back() {\n        if let Some(digit) = char.to_digit(10) {", "    while let Some(char) = chars.next_back() {\n        if let Some(digit) = char.to_digit(10).or_else(|| ('\\u{ff10}'..='\\u{ff19}').contains(&char).then(|| char as u32 - 0xff10)) {")]),
 ("nhs-idx", "P12", [(V+"nhs_check_digit.rs", "            if nb_digit >= NHS_NUMBER_LENGTH {\n                return false;\n            }\n", "            if nb_digit >= NHS_NUMBER_LENGTH + 1 {\n                return false;\n            }\n            if nb_digit == NHS_NUMBER_LENGTH && digit == 0 {\n                continue;\n            }\n")]),
 ("cn-plus", "P12", [(V+"chinese_id_checksum.rs", "            0 => '1',\n            1 => '0',", "            0 => '1',\n            1 if regex_match.as_bytes()[0] != b'9' => '0',")]),
 ("gh-trim", "P12", [(V+"github_token_checksum.rs", "format!(\"{:0>6}\", base62::encode(computed_checksum))", "format!(\"{:0>6}\", base62::encode(computed_checksum & 0x7fff_ffff))")]),
 ("jwt-big", "P12", [(V+"jwt_expiration_checker.rs", "if let Some(exp) = exp.as_i64() {", "if let Some(exp) = exp.as_i64().or_else(|| exp.as_u64().map(|_| i64::MAX)) {")]),
 ("jwt-pad", "P12", [(V+"jwt_expiration_checker.rs", "        .decode(segment)", "        .decode(segment.trim_end_matches('='))")]),
 ("iban-filter", "P12", [(V+"iban_checker.rs", ".filter(|c| c.is_alphanumeric())", ".filter(|c| c.is_ascii_alphanumeric())")]),
]
