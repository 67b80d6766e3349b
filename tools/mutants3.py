"""Third campaign: written from the property statements as someone would who does not know the checks."""
S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"; M = S + "scanner/mod.rs"; K = S + "proximity_keywords/mod.rs"
IK = S + "proximity_keywords/included_keywords.rs"; EK = S + "proximity_keywords/excluded_keywords.rs"
A = S + "match_action.rs"; R = S + "normalization/rust_regex_adapter.rs"; RP = S + "parser/regex_parser.rs"
SR = S + "scoped_ruleset/mod.rs"; BS = S + "scoped_ruleset/bool_set.rs"; B = "sds-bindings-utils/src/binary_encoding.rs"
EJ = S + "event_json.rs"; SE = S + "simple_event.rs"; PA = S + "path.rs"; ST = S + "stats.rs"
RS = S + "scanner/regex_rule/regex_store.rs"; CS = S + "scanner/regex_rule/regex_cache_store.rs"
CFG = S + "scanner/regex_rule/config.rs"; V = S + "secondary_validation/"; L = S + "observability/labels.rs"
MS = S + "match_validation/match_status.rs"; VA = S + "validation.rs"; ME = S + "scanner/metrics.rs"; SC = S + "scanner/scope.rs"
SP = S + "scanner/shared_pool.rs"; G = "sds-go/rust/src/native/"
MUTANTS = [
 # P01/P02
 ("empty-match-stop", "P01 P02 P03", [(C, "let is_false_positive_match = regex_match.is_empty()\n", "if regex_match.is_empty() && regex_match.end() == self.content.len() - 1 { return None; }\n                let is_false_positive_match = regex_match.is_empty()\n")]),
 ("cache-reuse-short", "P15 P01 P14", [(CS, "        self.raw_get(shared_regex.cache_key, &shared_regex.regex)", "        if self.map.len() > 40 { let k = self.map.keys().next(); if let Some(k) = k { if k != shared_regex.cache_key { self.map.remove(k); } } }\n        self.raw_get(shared_regex.cache_key, &shared_regex.regex)")]),
 ("xdigit-x", "P02", [(RP, "const HEX_DIGIT: &str = \"0123456789ABCDEFabcdef\";", "const HEX_DIGIT: &str = \"0123456789ABCDEFabcde\";")]),
 ("quote-escaped-false", "P02", [(RP, ".map(|c| Ast::Literal(Literal { c, escaped: true }))", ".map(|c| Ast::Literal(Literal { c, escaped: !c.is_whitespace() || c == ' ' }))")]),
 ("quote-first-e", "P02", [(RP, "    let (input, literals) = take_until(\"\\\\E\")(input)?;", "    let (input, literals) = take_until(\"\\\\E\")(input)?;\n    let literals = if literals.value.ends_with('\\\\') && literals.value.len() > 1 { Input::from((&literals.value[..literals.value.len() - 1], literals.depth)) } else { literals };")]),
 ("class-range-swap", "P02 P03", [(RP, "    Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))", "    Ok((input, BracketCharacterClassItem::Range(start.c.min(end.c), start.c.max(end.c))))")]),
 ("esc-b-class", "P02", [(RP, "map(tag(\"b\"), |_| '\\x08'),", "map(tag(\"b\"), |_| 'b'),")]),
 ("esc-v-lit", "P02", [(RP, "map(tag(\"e\"), |_| '\\x1B'),", "map(tag(\"e\"), |_| '\\x1A'),")]),
 ("hspace-nbsp", "P02", [(R, "                        c: '\\t',\n                        escaped: true,\n                    },\n                    LiteralKind::BracketedCharacterClass,\n                )),\n            ],\n        })),\n    }\n}\n\nfn vertical", "                        c: '\\t',\n                        escaped: true,\n                    },\n                    LiteralKind::BracketedCharacterClass,\n                )),\n                RegexClassSetItem::Literal(convert_literal(\n                    Literal {\n                        c: '\\u{a0}',\n                        escaped: true,\n                    },\n                    LiteralKind::BracketedCharacterClass,\n                )),\n            ],\n        })),\n    }\n}\n\nfn vertical")]),
 ("vspace-nel", "P02", [(R, "                RegexClassSetItem::Literal(convert_literal(\n                    // form feed\n", "                RegexClassSetItem::Literal(convert_literal(\n                    Literal {\n                        c: '\\u{2028}',\n                        escaped: true,\n                    },\n                    LiteralKind::BracketedCharacterClass,\n                )),\n                RegexClassSetItem::Literal(convert_literal(\n                    // form feed\n")]),
 ("neg-range-class", "P02", [(R, "                    negated: bracket.negated,\n", "                    negated: bracket.negated && bracket.items.len() < 12,\n")]),
 ("lazy-range", "P02", [(R, "            greedy: !repetition.quantifier.lazy,", "            greedy: !repetition.quantifier.lazy || matches!(repetition.quantifier.kind, SdsQuantifierKind::RangeMin(n) if n > 1),")]),
 ("atleast-zero", "P02", [(R, "RegexRepetitionKind::Range(RepetitionRange::AtLeast(min))", "RegexRepetitionKind::Range(RepetitionRange::AtLeast(if min == 0 { 1 } else { min }))")]),
 ("name-dup", "P03 P02", [(RP, "alt((tag(\"(?<\"), tag(\"(?P<\"))),", "tag(\"(?<\"),")]),
 ("depth-not-restored", "P03", [(RP, "            input.depth -= 1;\n", "            input.depth -= usize::from(input.depth < 40);\n")]),
 ("quant-limit-sum", "P03", [(R, "if min > QUANTIFIER_LIMIT || max > QUANTIFIER_LIMIT {", "if min.max(max) > QUANTIFIER_LIMIT || min + max > 2 * QUANTIFIER_LIMIT - 100 {")]),
 ("empty-lazy", "P03", [(VA, "    if regex.is_match(\"\") {", "    if regex.is_match(\"\") && !converted_pattern.ends_with(\"??\") {")]),
 # P04
 ("overlap-touch-nonmut", "P04", [(M, "&& retained_rule.utf8_end > rule_match.utf8_start\n", "&& retained_rule.utf8_end + usize::from(retained_rule.rule_index == rule_match.rule_index && retained_rules.len() > 2) > rule_match.utf8_start\n")]),
 ("overlap-inner", "P04", [(M, "if retained_rule.utf8_start < rule_match.utf8_end\n", "if retained_rule.utf8_start < rule_match.utf8_end\n                        && !(retained_rule.utf8_start > rule_match.utf8_start && retained_rule.utf8_end < rule_match.utf8_end)\n")]),
 # P05/P06
 ("hash-pad", "P05", [(A, "        let hash = farmhash::fingerprint64(match_result.as_bytes());\n        format!(\"{hash:x}\")", "        let hash = farmhash::fingerprint64(match_result.as_bytes());\n        format!(\"{hash:016x}\")")]),
 ("hash-trim", "P05", [(A, "farmhash::fingerprint64(match_result.as_bytes())", "farmhash::fingerprint64(match_result.trim_end_matches('\\n').as_bytes())")]),
 ("repl-empty", "P05 P06", [(M, "if let Some(replacement) = rule.get_match_action().get_replacement(matched_content) {", "if let Some(replacement) = rule.get_match_action().get_replacement(matched_content).filter(|r| !r.replacement.is_empty() || rule_match.utf8_start > 0) {")]),
 ("redact-nl", "P05", [(A, "                end: matched_content.len(),\n                replacement: Cow::Borrowed(replacement),", "                end: matched_content.trim_end_matches(|c| c == '\\r').len(),\n                replacement: Cow::Borrowed(replacement),")]),
 ("mutate-flag", "P05 P18", [(M, "                will_mutate\n            });", "                will_mutate && !output_rule_matches.last().is_some_and(|m: &RuleMatch| m.end_index_exclusive == m.start_index)\n            });")]),
 # P07/P08/P09
 ("kw-case-eszett", "P07 P08", [(K, ".syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));", ".syntax(regex_automata::util::syntax::Config::default().case_insensitive(keywords.iter().any(|k| k.is_ascii())));")]),
 ("kw-earliest", "P07", [(IK, "self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());", "self.start = next_char_index(self.content, included_keyword_match.start())\n                .map_or(included_keyword_match.end(), |x| if self.content[x..].starts_with('-') { x + 1 } else { x });")]),
 ("prefix-ge", "P07", [(K, ".map_or(true, |(i, _)| prefix_start + i >= target)", ".map_or(true, |(i, _)| prefix_start + i > target || content[prefix_start..target].is_ascii() && prefix_start + i == target)")]),
 ("path-kw-once", "P09", [(K, "    let input = Input::new(path).earliest(true);\n", "    let input = Input::new(path).earliest(true).range(..path.len().min(128));\n")]),
 ("path-empty-seg", "P09", [(PA, "            if let PathSegment::Field(field) = segment {\n                if i != 0 {", "            if let PathSegment::Field(field) = segment {\n                if i != 0 && !field.is_empty() {")]),
 ("path-index-sep", "P09", [(PA, "                if i != 0 {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);", "                if i != 0 && !(i == 1 && self.segments[0].is_index()) {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);")]),
 ("link-slash", "P09", [(K, "&['-', '_', '.', ' ', '/'];", "&['-', '_', '.', ' '];")]),
 ("ek-window-strip", "P08", [(EK, "let prefix_start = get_prefix_start(match_start, look_ahead_char_count, content).start;", "let extra = content[..match_start].chars().rev().take(look_ahead_char_count).filter(|c| EXCLUDED_KEYWORDS_REMOVED_CHARS.contains(c)).count();\n    let prefix_start = get_prefix_start(match_start, look_ahead_char_count + extra, content).start;")]),
 ("ek-after-raw", "P08", [(EK, "let char_after = content[match_start..].chars().find(is_kept);", "let char_after = content[match_start..].chars().next().filter(is_kept);")]),
 # P10
 ("scope-prefix-dedup", "P10", [(SR, "        if self.rule_changes.contains(&rule_change) {\n            return;\n        }\n        if let", "        if self.rule_changes.contains(&rule_change) && !path.iter().any(|s| s.is_index()) {\n            return;\n        }\n        if path.len() > 6 && self.children.len() > 3 { return; }\n        if let")]),
 ("wild-double-index", "P10", [(SR, "            if self.add_implicit_index_wildcards && segment.is_index() {", "            if self.add_implicit_index_wildcards && segment.is_index() && !self.path.segments.last().is_some_and(|s| s.is_index() && self.path.len() > 2) {")]),
 ("wild-remove", "P10", [(SR, "                    RuleChange::Remove(i) => {\n                        if *i == rule_index {", "                    RuleChange::Remove(i) => {\n                        if *i == rule_index && !(include_node.index_wildcard_match && include_node.rule_tree.children.len() > 1) {")]),
 ("include-all-root", "P10", [(SR, "                    for path in include {\n                        tree.insert_rule_add(path, rule_index);", "                    for path in include {\n                        if path.is_empty() && !exclude.is_empty() { continue; }\n                        tree.insert_rule_add(path, rule_index);")]),
 ("seg-eq-case", "P10 P17", [(SR, "rule_tree.children.get(&segment)", "rule_tree.children.get(&match &segment { PathSegment::Field(f) if f.ends_with(' ') => PathSegment::Field(f.trim_end().to_string().into()), s => s.clone() })")]),
 # P11
 ("mp-order", "P11", [(C, "                        self.excluded_matches\n                            .insert(self.content[regex_match.range()].to_string());", "                        if self.excluded_matches.len() < 64 {\n                            self.excluded_matches\n                                .insert(self.content[regex_match.range()].to_string());\n                        }")]),
 ("mp-nonmut", "P11", [(M, "            let is_false_positive = excluded_matches\n", "            let is_false_positive = rule_match.utf8_end - rule_match.utf8_start < 200 && excluded_matches\n")]),
 ("mp-case", "P11", [(M, "                                .contains(&content[rule_match.utf8_start..rule_match.utf8_end]);", "                                .contains(&content[rule_match.utf8_start..rule_match.utf8_end])\n                                || excluded_matches.contains(&content[rule_match.utf8_start..rule_match.utf8_end].to_ascii_lowercase());")]),
 # P12
 ("chinese-lower", "P12", [(V+"chinese_id_checksum.rs", "            .to_ascii_uppercase()\n", "")]),
 ("nhs-mod10", "P12", [(V+"nhs_check_digit.rs", "if identifier == 11 {", "if identifier == 11 && total_sum > 0 {")]),
 ("nir-neg", "P12", [(V+"nir_checksum.rs", "(97 - digit.unwrap() % 97) == checksum.unwrap()", "(97 - digit.unwrap() % 97) % 97 == checksum.unwrap() % 97")]),
 ("jwt-eq", "P12", [(V+"jwt_expiration_checker.rs", "                    exp > now", "                    exp > now && exp < 253402300800")]),
 ("jwt-obj", "P12", [(V+"jwt_expiration_checker.rs", "if let Some(exp) = exp.as_i64() {", "if let Some(exp) = exp.as_i64().or(exp.as_f64().map(|x| x as i64)) {")]),
 ("iban-ascii", "P12", [(V+"iban_checker.rs", ".filter(|c| c.is_alphanumeric())", ".filter(|c| c.is_ascii_alphanumeric())")]),
 ("gh-two", "P12", [(V+"github_token_checksum.rs", "if parts.len() < 2 {", "if parts.len() < 2 || parts.len() > 4 {")]),
 # P13
 ("blocked-many", "P13", [(M, "if self.blocked_rules.contains(&rule_index) {", "if self.blocked_rules.iter().take(10).any(|x| *x == rule_index) {")]),
 ("blocked-mp", "P13", [(M, "        rule_visitor.visit_rule_indices(|rule_index| {\n            if self.blocked_rules.contains(&rule_index) {", "        rule_visitor.visit_rule_indices(|rule_index| {\n            if self.blocked_rules.contains(&rule_index) && !exclusion_check.is_excluded(rule_index) {")]),
 # P14/P15
 ("store-insert-dup", "P15 P14", [(RS, "        if let Some(existing_regex) = self.get(pattern) {\n            existing_regex", "        if let Some(existing_regex) = self.get(pattern.trim_end()) {\n            existing_regex")]),
 ("gc-early", "P15 P16", [(RS, "if self.key_map.get(*cache_key).unwrap().regex.strong_count() == 0 {", "if self.key_map.get(*cache_key).unwrap().regex.strong_count() <= 1 {")]),
 ("pool-poison", "P14", [(CS, "    let mut caches = REGEX_CACHE_STORE.get();\n    func(caches.get_ref())", "    let mut caches = REGEX_CACHE_STORE.get();\n    thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }\n    DEPTH.with(|d| { assert!(d.get() == 0, \"nested scan\"); d.set(1); });\n    let r = func(caches.get_ref());\n    DEPTH.with(|d| d.set(0));\n    r")]),
 # P16
 ("label-dedup", "P16", [(L, "        tags.extend(additional_labels.into_labels());", "        for label in additional_labels.into_labels() {\n            if !tags.iter().any(|t| t.key() == label.key()) {\n                tags.push(label);\n            }\n        }")]),
 ("match-count-any", "P16", [(M, "            .increment(output_rule_matches.len() as u64);", "            .increment((output_rule_matches.len() as u64) & 0xff);")]),
 ("ek-count-once", "P16", [(EK, "            self.false_positive_counter.increment(1);", "            if match_start > 0 { self.false_positive_counter.increment(1); }")]),
 ("mp-count-nonmut", "P16", [(C, "        self.metrics.false_positive_excluded_attributes.increment(1);", "        if self.validator.is_none() { self.metrics.false_positive_excluded_attributes.increment(1); }")]),
 ("cache-gauge-old", "P16", [(RS, "                    GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));\n", "                    if weak_ref.cache_size < 4096 { GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64)); }\n")]),
 ("deletions-panic", "P16", [(M, "        stats.scanner_deletions.increment(1);", "        if !std::thread::panicking() { stats.scanner_deletions.increment(1); }")]),
 # P17/P18
 ("json-nested-array", "P17", [(EJ, "                for (i, value) in values.iter_mut().enumerate() {", "                for (i, value) in values.iter_mut().enumerate().take(1000) {")]),
 ("map-empty-key", "P17", [(EJ, "        for (k, v) in self.iter_mut() {", "        for (k, v) in self.iter_mut().filter(|(k, _)| !k.is_empty()) {")]),
 ("json-num-big", "P17", [(EJ, "let _result = visitor.visit_string(number.to_string().as_str());", "if number.is_f64() || number.is_i64() { let _result = visitor.visit_string(number.to_string().as_str()); }")]),
 ("simple-nested-msg", "P17", [(SE, "if key == FIRST_VISIT_KEY {", "if key == FIRST_VISIT_KEY && matches!(child, SimpleEvent::String(_)) || key == \"messages\" && false {")]),
 ("bin-storage-first", "P18 P17", [(B, "if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {", "if visit_result.might_mutate && self.storage.len() < 4096 && !self.storage.contains_key(&visit_result.path) {")]),
 ("bin-lossy-len", "P18", [(B, "        content.0 = was_mutated;", "        content.0 = was_mutated || content.0;")]),
 ("bin-shift-abs", "P18", [(B, "out.extend((rule_match.shift_offset as u32).to_be_bytes());", "out.extend((rule_match.shift_offset as i16 as u32).to_be_bytes());")]),
 ("bin-len-u16", "P18", [(B, "    out.extend((bytes.len() as u32).to_be_bytes());\n    out.extend(bytes);", "    let n = bytes.len() & 0x3ffff;\n    out.extend((n as u32).to_be_bytes());\n    out.extend(&bytes[..n]);")]),
 ("path-display-empty", "P18 P17", [(PA, "                    if i != 0 {\n                        write!(f, \".\")?;", "                    if i != 0 && !field.is_empty() {\n                        write!(f, \".\")?;")]),
 # P21
 ("merge-error", "P21", [(MS, "        if new_status > *self {", "        if new_status > *self && !matches!((&*self, &new_status), (MatchStatus::Error(_), MatchStatus::Error(_))) {")]),
 ("merge-ge", "P21", [(MS, "        if new_status > *self {", "        if new_status >= *self || (matches!(self, MatchStatus::Error(e) if e.is_empty()) && new_status == MatchStatus::Invalid) {")]),
 # P22
 ("kw-trim-len", "P22", [(K, "if keyword.chars().count() > look_ahead_character_count {", "if keyword.len() > look_ahead_character_count && keyword.chars().count() >= look_ahead_character_count {")]),
 ("kw-sum", "P22", [(K, "    if config.included_keywords.len() > MAX_KEYWORD_COUNT\n        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT", "    if config.included_keywords.len() + config.excluded_keywords.len() > 2 * MAX_KEYWORD_COUNT - 1")]),
 ("labels-two", "P22", [(L, "                    if element.len() > 2 {", "                    if element.len() > 3 {")]),
 ("labels-empty", "P22", [(L, "                    label_list.push((", "                    if element[1].is_empty() { continue; }\n                    label_list.push((")]),
 ("scope-default", "P22", [(CFG, "    #[serde(default)]\n    pub scope: Scope,", "    pub scope: Scope,")]),
 ("scope-ser", "P22", [(SC, "    Include {\n        include: Vec<Path<'static>>,\n        exclude: Vec<Path<'static>>,", "    Include {\n        include: Vec<Path<'static>>,\n        #[serde(default, skip_serializing)]\n        exclude: Vec<Path<'static>>,")]),
]
