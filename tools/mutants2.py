"""Second campaign: changes that need something specific to show (a threshold, a rare spelling, a combination)."""
S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"; M = S + "scanner/mod.rs"; K = S + "proximity_keywords/mod.rs"
IK = S + "proximity_keywords/included_keywords.rs"; EK = S + "proximity_keywords/excluded_keywords.rs"
A = S + "match_action.rs"; R = S + "normalization/rust_regex_adapter.rs"; RP = S + "parser/regex_parser.rs"
SR = S + "scoped_ruleset/mod.rs"; BS = S + "scoped_ruleset/bool_set.rs"; B = "sds-bindings-utils/src/binary_encoding.rs"
EJ = S + "event_json.rs"; SE = S + "simple_event.rs"; PA = S + "path.rs"; ST = S + "stats.rs"
RS = S + "scanner/regex_rule/regex_store.rs"; CS = S + "scanner/regex_rule/regex_cache_store.rs"
CFG = S + "scanner/regex_rule/config.rs"; V = S + "secondary_validation/"; L = S + "observability/labels.rs"
MS = S + "match_validation/match_status.rs"; VA = S + "validation.rs"; ME = S + "scanner/metrics.rs"; SC = S + "scanner/scope.rs"
MUTANTS = [
 # --- dialect
 ("hex-astral", "P02", [(RP, "u32::from_str_radix(hex_string.value, 16)\n            .map_err", "u32::from_str_radix(hex_string.value, 16)\n            .map(|x| if hex_string.value.len() > 4 { x & 0x1ffff & !0x10000 | (x & 0x10000) } else { x })\n            .map(|x| if hex_string.value.len() > 6 { x & 0xff } else { x })\n            .map_err")]),
 ("flags-remove-first", "P02", [(RP, "remove: remove.map(|x| x.1).unwrap_or(vec![]),", "remove: remove.map(|x| x.1.into_iter().take(2).collect()).unwrap_or(vec![]),")]),
 ("class-ws-ascii", "P02", [(R, "kind == LiteralKind::BracketedCharacterClass && literal.c.is_whitespace()", "kind == LiteralKind::BracketedCharacterClass && literal.c.is_ascii_whitespace()")]),
 ("quoted-class-range", "P02", [(RP, "    let items = literals\n        .into_iter()\n        .map(BracketCharacterClassItem::Literal)\n        .collect();", "    let items = match literals.as_slice() {\n        [a, '-', b] if a <= b => vec![BracketCharacterClassItem::Range(*a, *b)],\n        _ => literals.into_iter().map(BracketCharacterClassItem::Literal).collect(),\n    };")]),
 ("alt-empty-dropped", "P02 P03", [(RP, "        .map(|ast| ast.unwrap_or(Ast::Empty))\n        .collect();", "        .map(|ast| ast.unwrap_or(Ast::Empty))\n        .collect::<Vec<_>>();\n    let children: Vec<Ast> = if children.len() > 2 { let n = children.len(); children.into_iter().enumerate().filter(|(i, a)| !matches!(a, Ast::Empty) || *i == 0 || *i + 1 == n).map(|x| x.1).collect() } else { children };")]),
 ("flag-both", "P02", [(R, "    for flag in flags_in_both {\n        add_flags.retain(|x| *x != flag);\n    }", "    for flag in flags_in_both.into_iter().take(1) {\n        add_flags.retain(|x| *x != flag);\n        remove_flags.len();\n    }")]),
 ("neg-class-bracket", "P02", [(RP, "    if closing_bracket.is_some() {\n        items.insert(0, BracketCharacterClassItem::Literal(']'));\n    }", "    if closing_bracket.is_some() && !(negated.is_some() && items.len() > 2) {\n        items.insert(0, BracketCharacterClassItem::Literal(']'));\n    }")]),
 ("ctrl-upper", "P02", [(RP, "(c.to_ascii_lowercase() as u32) - ('a' as u32) + 1", "(c.to_ascii_lowercase() as u32) - ('a' as u32) + 1 - (c == 'Z') as u32")]),
 ("neg-ascii-class", "P02", [(R, "negated: ascii_class.negated,", "negated: ascii_class.negated && !matches!(ascii_class.kind, AsciiClassKind::Blank),")]),
 ("x-verbatim-esc", "P02", [(R, "            RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)\n        } else {\n            RegexLiteralKind::Verbatim\n        }\n    } else {\n        // escape", "            if literal.c == '\\u{85}' { RegexLiteralKind::Verbatim } else { RegexLiteralKind::HexBrace(RegexHexLiteralKind::X) }\n        } else {\n            RegexLiteralKind::Verbatim\n        }\n    } else {\n        // escape")]),
 ("name-digit", "P03 P02", [(RP, "many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE)),", "many0(one_of(ASCII_LETTERS_WITH_UNDERSCORE)),")]),
 ("int-overflow", "P03", [(RP, "u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;", "u32::from_str(digits.value).unwrap_or(0);")]),
 ("min-only-limit", "P03", [(R, "                        if min > QUANTIFIER_LIMIT {\n", "                        if min > QUANTIFIER_LIMIT + 1 {\n")]),
 ("estimate-off", "P03", [(VA, "    Ok(low)\n", "    Ok(if low > 100_000 { low - 1 } else { low })\n")]),
 ("validate-cheap", "P03", [(VA, "    validate_and_create_regex(input).map(|_| ())", "    if input.len() > 200 && !input.contains('*') { return convert_to_rust_regex(input).map(|_| ()).map_err(Into::into); }\n    validate_and_create_regex(input).map(|_| ())")]),
 # --- keywords
 ("window-cap", "P08", [(K, "match char_indices.nth_back(look_ahead_char_count - 1) {", "match char_indices.nth_back(look_ahead_char_count.min(48) - 1) {")]),
 ("window-cap-inc", "P07", [(K, "        .nth(prefix_size)\n", "        .nth(prefix_size.min(48))\n")]),
 ("trim-space", "P07 P08", [(K, "keyword.trim().replace(remove_chars, \"\")", "keyword.trim_matches(' ').replace(remove_chars, \"\")")]),
 ("skip-to-equal", "P07", [(IK, "if start > self.start {", "if start > self.start + 1 {")]),
 ("kw-many", "P07", [(K, "        .collect::<Result<Vec<_>, _>>()?\n        .iter()\n        .cloned()", "        .collect::<Result<Vec<_>, _>>()?\n        .iter()\n        .take(48)\n        .cloned()")]),
 ("kw-digit-end", "P07 P08", [(K, "if should_push_word_boundary(keyword.chars().next_back().unwrap()) {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast", "if should_push_word_boundary(keyword.chars().next_back().unwrap()) && keyword.len() > 1 {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast")]),
 ("ek-fp-key", "P08", [(EK, "stripped_prefix.extend(char_before);", "if char_before.map_or(true, |c| c.is_ascii()) { stripped_prefix.extend(char_before); }")]),
 ("prev-sep", "P09", [(K, "            (_, CharType::Separator, _) => {\n                push_character(&current);", "            (_, CharType::Separator, _) => {\n                if !matches!(current_char, CharType::Separator) { push_character(&current); }")]),
 ("upper-digit", "P09", [(K, "if !is_lower && !is_upper {\n", "if !is_lower && !is_upper && !char.is_ascii_digit() {\n")]),
 ("sanitize-nonempty", "P09", [(PA, "                if i != 0 {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);", "                if !sanitized_path.is_empty() {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);")]),
 ("seg-sanitize", "P09 P17", [(PA, "BypassStandardizePathResult::BypassAndAllLowercase => Some(field.clone()),", "BypassStandardizePathResult::BypassAndAllLowercase => Some(Cow::Owned(field.trim_end_matches('_').to_string())),")]),
 # --- scope
 ("change-index", "P10", [(SR, "        if self.rule_changes.contains(&rule_change) {\n", "        if self.rule_changes.iter().any(|x| matches!((x, &rule_change), (RuleChange::Remove(a), RuleChange::Add(b)) | (RuleChange::Add(a), RuleChange::Add(b)) | (RuleChange::Remove(a), RuleChange::Remove(b)) if a == b)) {\n")]),
 ("excl-last", "P10 P11", [(SR, "        for include_node in self.tree_nodes {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)", "        for include_node in self.tree_nodes.iter().rev().take(8) {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)")]),
 ("wild-two", "P10", [(SR, "if self.add_implicit_index_wildcards && segment.is_index() {", "if self.add_implicit_index_wildcards && segment.is_index() && !self.tree_nodes[tree_index].index_wildcard_match {")]),
 ("remove-shallow", "P23 P10", [(SR, "        for child_tree in self.children.values_mut() {\n            child_tree.recursively_remove(rule_change);\n        }", "        for child_tree in self.children.values_mut() {\n            child_tree.rule_changes.retain(|x| *x != rule_change);\n        }")]),
 ("index-key", "P10", [(SR, "rule_tree.children.get(&segment)", "rule_tree.children.get(&match &segment { PathSegment::Index(i) => PathSegment::Index(*i & 0xff), s => s.clone() })")]),
 ("bool-128", "P10 P23", [(BS, "        self.rule_used.fill(false);", "        self.rule_used.iter_mut().take(128).for_each(|x| *x = false);")]),
 # --- validators
 ("luhn-wrap", "P12", [(V+"luhn_checksum.rs", "let mut sum: u32 = 0;", "let mut sum: u32 = 0;\n            if regex_match.len() > 28 { return false; }")]),
 ("nhs-10", "P12", [(V+"nhs_check_digit.rs", "        if identifier == 11 {\n            identifier = 0;\n        }", "        if identifier >= 10 {\n            identifier = 0;\n        }")]),
 ("nir-trailing", "P12", [(V+"nir_checksum.rs", "if checksum.is_none() || get_next_digit(&mut input_iter).is_some() {", "if checksum.is_none() || input_iter.next().is_some_and(|c| c.is_ascii_digit()) {")]),
 ("jwt-float", "P12", [(V+"jwt_expiration_checker.rs", "if let Some(exp) = exp.as_i64() {", "if let Some(exp) = exp.as_i64().or(exp.as_f64().map(|x| x as i64)) {")]),
 ("jwt-header", "P12", [(V+"jwt_expiration_checker.rs", "    let header_json = decode_segment(header_segment)?;", "    let header_json = decode_segment(header_segment).unwrap_or(JsonValue::Null);")]),
 ("chinese-chars", "P12", [(V+"chinese_id_checksum.rs", "if regex_match.len() != CHINESE_ID_LENGTH {", "if regex_match.chars().count() != CHINESE_ID_LENGTH {")]),
 ("iban-case", "P12", [(V+"iban_checker.rs", ".filter(|c| c.is_alphanumeric())\n", ".filter(|c| c.is_alphanumeric())\n            .map(|c| c.to_ascii_uppercase())\n")]),
 ("github-len", "P12", [(V+"github_token_checksum.rs", "if last_part.len() <= 6 {", "if last_part.len() < 6 {")]),
 # --- store, state
 ("gc-one", "P15 P14", [(RS, "regex.strong_count() == 0 {\n                if let", "regex.strong_count() <= 1 {\n                if let")]),
 ("gc-never-index", "P15 P16", [(RS, "                if let Some(old_regex) = self.key_map.remove(*cache_key) {\n                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));\n                }\n                false", "                if let Some(old_regex) = self.key_map.remove(*cache_key) {\n                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));\n                }\n                true")]),
 ("store-key-trunc", "P15", [(RS, "self.pattern_index.get(pattern).and_then(|cache_key| {", "self.pattern_index.get(pattern).or_else(|| if pattern.len() > 400 { self.pattern_index.iter().find(|(k, _)| k.len() == pattern.len() && k[..100.min(k.len())] == pattern[..100]).map(|x| x.1) } else { None }).and_then(|cache_key| {")]),
 # --- metrics
 ("labels-dup", "P16 P22", [(L, "        tags.extend(additional_labels.into_labels());", "        tags.extend(additional_labels.into_labels().into_iter().filter(|l| !self.0.iter().any(|x| x.key() == l.key())));")]),
 ("metric-name", "P16", [(ME, "\"scanning.match_count\", labels.clone()", "\"scanning.match_count\", Labels::empty()")]),
 ("gauge-set", "P16", [(ST, "self.total_scanners.set((prev_value + delta) as f64);", "self.total_scanners.set((prev_value + delta).max(1) as f64);")]),
 # --- events
 ("map-root-index", "P17", [(EJ, "            value.visit_string_mut(&Path::from(remaining_segments), &mut visit);", "            if remaining_segments.len() < 12 { value.visit_string_mut(&Path::from(remaining_segments), &mut visit); }")]),
 ("simple-msg", "P17", [(SE, "if key == FIRST_VISIT_KEY {", "if key.eq_ignore_ascii_case(FIRST_VISIT_KEY) && key.len() < 8 {")]),
 ("json-float", "P17", [(EJ, "let _result = visitor.visit_string(number.to_string().as_str());", "let _result = visitor.visit_string(number.as_i64().map(|x| x.to_string()).unwrap_or_else(|| number.as_f64().unwrap().to_string()).as_str());")]),
 ("bin-len16", "P18", [(B, "    out.extend((bytes.len() as u32).to_be_bytes());\n    out.extend(bytes);", "    out.extend((bytes.len().min(0xffff) as u32).to_be_bytes());\n    out.extend(&bytes[..bytes.len().min(0xffff)]);")]),
 ("bin-index8", "P18 P17", [(B, "out.extend((*index as u32).to_be_bytes());", "out.extend((*index as u8 as u32).to_be_bytes());")]),
 ("bin-rule16", "P18", [(B, "out.extend((rule_match.rule_index as u32).to_be_bytes());", "out.extend((rule_match.rule_index as u8 as u32).to_be_bytes());")]),
 ("bin-mutflag", "P18", [(B, "if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {", "if visit_result.might_mutate && !content.is_empty() && self.storage.len() < 200 && !self.storage.contains_key(&visit_result.path) {")]),
 ("bin-display", "P18 P17", [(PA, "                PathSegment::Index(i) => {\n                    write!(f, \"[{}]\", i)?;", "                PathSegment::Index(i) => {\n                    write!(f, \"[{}]\", i % 1000)?;")]),
 # --- validation statuses, wire
 ("merge-ge", "P21", [(MS, "if new_status > *self {", "if new_status >= *self || matches!((&new_status, &*self), (MatchStatus::Error(_), MatchStatus::Error(_))) {")]),
 ("label-order", "P22", [(L, "element.first().unwrap().clone(),\n                        element.last().unwrap().clone(),", "element.first().unwrap().trim().to_string(),\n                        element.last().unwrap().clone(),")]),
 ("label-rev", "P22", [(L, "for label in self.clone().into_labels() {", "for label in self.clone().into_labels().into_iter().rev() {")]),
 # --- scanning
 ("noop-mutate", "P18 P17 P05", [(M, "                let will_mutate = rule_matches.iter().any(|rule_match| {", "                let will_mutate = rule_matches.iter().take(3).any(|rule_match| {")]),
 ("utf16-long", "P06", [(M, "                *utf8_byte_delta +=\n                    replacement.replacement.len() as isize - before_replacement.len() as isize;", "                *utf8_byte_delta +=\n                    (replacement.replacement.len() as i16 - before_replacement.len() as i16) as isize;")]),
 ("blocked-many", "P13", [(M, "if self.blocked_rules.contains(&rule_index) {", "if self.blocked_rules.iter().take(10).any(|x| *x == rule_index) {")]),
 ("mp-any-rule", "P11", [(M, "if self.rules[rule_match.rule_index].should_exclude_multipass_v0() {", "if self.rules[rule_match.rule_index].should_exclude_multipass_v0() && excluded_matches.len() < 30 {")]),
]
