#!/usr/bin/env python3
"""Mutation campaign: small realistic breakages, each run against the check of the property it breaks.
usage: mutants.py [-j workers] [-s seed] [id ...]
Works on copies under /tmp/mc (removed at the end); /repo and /verif are not touched. Not used by any check."""
import os, sys, subprocess, shutil, threading, queue, time
S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"
M = S + "scanner/mod.rs"
K = S + "proximity_keywords/mod.rs"
IK = S + "proximity_keywords/included_keywords.rs"
EK = S + "proximity_keywords/excluded_keywords.rs"
A = S + "match_action.rs"
R = S + "normalization/rust_regex_adapter.rs"
RP = S + "parser/regex_parser.rs"
SR = S + "scoped_ruleset/mod.rs"
B = "sds-bindings-utils/src/binary_encoding.rs"
EJ = S + "event_json.rs"
SE = S + "simple_event.rs"
PA = S + "path.rs"
ST = S + "stats.rs"
RS = S + "scanner/regex_rule/regex_store.rs"
CS = S + "scanner/regex_rule/regex_cache_store.rs"
CFG = S + "scanner/regex_rule/config.rs"
V = S + "secondary_validation/"
L = S + "observability/labels.rs"
G = "sds-go/rust/src/native/"
# (id, properties of which one has to alarm, [(file, old, new)...])
MUTANTS = [
 ("fp-resume-end", "P01 P12", [(C, "if let Some(next) = get_next_regex_start(self.content, &regex_match) {\n                        self.start = next;", "if let Some(next) = get_next_regex_start(self.content, &regex_match) {\n                        self.start = if self.rule.validator.is_some() { regex_match.end().max(next) } else { next };")]),
 ("kw-skip-end", "P07 P01", [(C, "included_keyword_matches.skip_to(true_positive_match.start);", "included_keyword_matches.skip_to(true_positive_match.end);")]),
 ("kw-check-excluded", "P07 P08 P01", [(C, "content,\n                included_keyword_match_start,\n                regex_caches.get(&self.regex),\n                false,", "content,\n                included_keyword_match_start,\n                regex_caches.get(&self.regex),\n                true,")]),
 ("path-kw-first-only", "P09", [(C, "            for string_match in true_positive_search {\n                match_emitter.emit(string_match);\n            }\n        }\n    }\n\n    fn true_positive_matches", "            for string_match in true_positive_search.take(8) {\n                match_emitter.emit(string_match);\n            }\n        }\n    }\n\n    fn true_positive_matches")]),
 ("next-start-ascii", "P01", [(M, "        Some(regex_match.start() + i)\n", "        Some(regex_match.start() + i + usize::from(i == 4))\n")]),
 ("overlap-last-only", "P04", [(M, "for retained_rule in &retained_rules {", "for retained_rule in retained_rules.iter().rev().take(3) {")]),
 ("overlap-tie-rule", "P04", [(M, "let ord = ord.then(a.rule_index.cmp(&b.rule_index));", "let ord = ord.then(a.rule_index.cmp(&b.rule_index).reverse());")]),
 ("overlap-ge", "P04", [(M, "if last.utf8_end > rule_match.utf8_start {", "if last.utf8_end >= rule_match.utf8_start {")]),
 ("overlap-len", "P04", [(M, "let ord = ord.then(a.len().cmp(&b.len()).reverse());", "let ord = ord.then(a.len().cmp(&b.len()));")]),
 ("partial-last-eq", "P05", [(A, "let start_replacement_byte = if match_len > *num_characters {", "let start_replacement_byte = if match_result.len() > *num_characters && match_len >= *num_characters {")]),
 ("partial-first-len", "P05", [(A, "let match_len = matched_content.chars().count();\n\n        let last_replacement_byte = if match_len > *num_characters {", "let match_len = matched_content.len();\n\n        let last_replacement_byte = if match_len > *num_characters && matched_content.chars().count() > *num_characters && *num_characters < 64 {")]),
 ("shift-before", "P06", [(M, "        let shift_offset = <E>::get_shift(custom_index_delta, *utf8_byte_delta);\n        let custom_end", "        let shift_offset = if rule.get_match_action().is_mutating() { <E>::get_shift(custom_index_delta, *utf8_byte_delta) } else { custom_start as isize - <E>::get_index(&rule_match.custom_start, rule_match.utf8_start) as isize + (rule_match.utf8_end == content.len()) as isize };\n        let custom_end")]),
 ("adjust-only-longer", "P06", [(M, "                <E>::adjust_shift(\n                    custom_index_delta,\n                    before_replacement,\n                    &replacement.replacement,\n                );", "                if before_replacement.len() != replacement.replacement.len() {\n                    <E>::adjust_shift(\n                        custom_index_delta,\n                        before_replacement,\n                        &replacement.replacement,\n                    );\n                }")]),
 ("no-sort-indices", "P06 P01", [(M, "        path_rules_matches.sort_unstable_by_key(|rule_match| rule_match.utf8_start);\n\n        E::calculate", "        path_rules_matches.sort_unstable_by_key(|rule_match| rule_match.utf8_end);\n\n        E::calculate")]),
 ("prefix-quick", "P07", [(K, "if prefix_start + prefix_size > target {", "if prefix_start + prefix_size + 1 > target + 1 || target - prefix_start < prefix_size + prefix_size / 16 {")]),
 ("prefix-start-bytes", "P08 P07", [(K, "match char_indices.nth_back(look_ahead_char_count - 1) {", "match char_indices.nth_back(look_ahead_char_count - usize::from(prefix.is_ascii())) {")]),
 ("kw-boundary-digit", "P07 P08", [(K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "c.is_ascii_alphabetic()")]),
 ("kw-boundary-last", "P07 P08", [(K, "for c in keyword.chars() {\n        keyword_pattern.push(Ast::Literal(literal_ast(c)))\n    }\n\n    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {", "for c in keyword.chars() {\n        keyword_pattern.push(Ast::Literal(literal_ast(c)))\n    }\n\n    if keyword.len() > 1 && should_push_word_boundary(keyword.chars().next_back().unwrap()) {")]),
 ("kw-next-end", "P07", [(IK, "self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());", "self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end()).max(included_keyword_match.end() - 1);")]),
 ("ek-keep-underscore", "P08", [(K, "const EXCLUDED_KEYWORDS_REMOVED_CHARS: &[char] = &['-', '_'];", "const EXCLUDED_KEYWORDS_REMOVED_CHARS: &[char] = &['-'];")]),
 ("camel-last", "P09", [(K, "let is_last_char = i == kw_length - 2;", "let is_last_char = i + 2 == characters.chars().count();")]),
 ("path-join", "P09 P17", [(PA, "                if i != 0 {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);", "                if !sanitized_path.is_empty() {\n                    sanitized_path.push(UNIFIED_LINK_CHAR);")]),
 ("path-lower", "P09 P17", [(PA, "sanitized_path.push_str(field.to_ascii_lowercase().as_str())", "sanitized_path.push_str(field)")]),
 ("bypass-empty", "P09 P17", [(K, "if !is_lower && !is_upper {\n            return BypassStandardizePathResult::NoBypass;", "if !is_lower && !is_upper && !char.is_ascii_digit() {\n            return BypassStandardizePathResult::NoBypass;")]),
 ("scope-remove-dup", "P10", [(SR, "        if self.rule_changes.contains(&rule_change) {\n            return;\n        }\n        if let", "        if self.rule_changes.contains(&rule_change) {\n            return;\n        }\n        if path.len() == 1 && self.children.get(&path[0]).is_some_and(|c| c.rule_changes.len() > 2) {\n            return;\n        }\n        if let")]),
 ("scope-recursive", "P10", [(SR, "        self.rule_changes.retain(|x| *x != rule_change);\n        for child_tree in", "        self.rule_changes.retain(|x| std::mem::discriminant(x) != std::mem::discriminant(&rule_change) || *x != rule_change);\n        if matches!(rule_change, RuleChange::Add(_)) {\n            self.rule_changes.retain(|x| !matches!((x, &rule_change), (RuleChange::Remove(a), RuleChange::Add(b)) if a == b));\n        }\n        for child_tree in")]),
 ("scope-wild-flag", "P10", [(SR, "if !self.tree_nodes[tree_index].index_wildcard_match || !segment.is_index() {", "if !self.tree_nodes[tree_index].index_wildcard_match {")]),
 ("scope-wild-excl", "P10 P11", [(SR, "        for include_node in self.tree_nodes {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)", "        for include_node in self.tree_nodes.iter().filter(|n| !n.index_wildcard_match || n.rule_tree.children.is_empty()) {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)")]),
 ("boolset-noreset", "P10 P01", [(SR, "        if let Some(bool_set) = &mut self.bool_set {\n            bool_set.reset();\n        }", "        if will_mutate {\n            if let Some(bool_set) = &mut self.bool_set {\n                bool_set.reset();\n            }\n        }")]),
 ("mp-trim", "P11", [(C, "self.excluded_matches\n                            .insert(self.content[regex_match.range()].to_string());", "self.excluded_matches\n                            .insert(self.content[regex_match.range()].trim().to_string());")]),
 ("mp-feature", "P11", [(M, "if self.scanner_features.multipass_v0_enabled {\n                    // Now", "if self.scanner_features.multipass_v0_enabled || excluded_matches.len() > 3 {\n                    // Now")]),
 ("luhn-zero", "P12", [(V+"luhn_checksum.rs", "} else if digit > 4 {", "} else if digit > 4 && digit < 9 {\n                    sum += digit * 2 - 9;\n                } else if digit == 9 && sum > 200 {\n                    sum += 18;\n                } else if digit > 4 {")]),
 ("nir-97", "P12", [(V+"nir_checksum.rs", "(97 - digit.unwrap() % 97) == checksum.unwrap()", "(97 - digit.unwrap() % 97) % 97 == checksum.unwrap() % 97")]),
 ("chinese-x", "P12", [(V+"chinese_id_checksum.rs", "            .to_ascii_uppercase()\n            == checksum", "            == checksum")]),
 ("github-split", "P12", [(V+"github_token_checksum.rs", "if parts.len() < 2 {", "if parts.len() < 2 || parts.len() > 3 {")]),
 ("jwt-ge", "P12", [(V+"jwt_expiration_checker.rs", "if let Some(exp) = exp.as_i64() {", "if let Some(exp) = exp.as_i64().or_else(|| exp.as_f64().map(|x| x as i64)) {")]),
 ("iban-alnum", "P12", [(V+"iban_checker.rs", ".filter(|c| c.is_alphanumeric())", ".filter(|c| !c.is_whitespace())")]),
 ("blocked-first", "P13", [(M, "if self.blocked_rules.contains(&rule_index) {", "if self.blocked_rules.iter().take(9).any(|x| *x == rule_index) {")]),
 ("store-race", "P14 P15", [(RS, "            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {", "            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key).filter(|_| self.gc_counter % 7 != 0) {")]),
 ("cache-wrong", "P14 P15", [(CS, "        self.map\n            .entry(key)\n            .unwrap()\n            .or_insert_with(|| regex.create_cache())", "        self.map\n            .entry(key)\n            .unwrap()\n            .or_insert_with(|| regex.create_cache());\n        if self.map.len() > 40 { self.map.clear(); self.map.insert(key, regex.create_cache()); }\n        self.map.get_mut(key).unwrap()")]),
 ("metrics-match", "P16", [(M, ".increment(output_rule_matches.len() as u64);", ".increment(rule_matches_list.iter().map(|x| x.1.len()).sum::<usize>() as u64);")]),
 ("metrics-events", "P16", [(M, "self.metrics.num_scanned_events.increment(1);", "if !rule_matches_list.is_empty() || blocked_rules_idx.is_empty() { self.metrics.num_scanned_events.increment(1); }")]),
 ("metrics-fp", "P16", [(C, "self.metrics.false_positive_excluded_attributes.increment(1);", "self.metrics.false_positive_excluded_attributes.absolute(1);")]),
 ("metrics-cache", "P16", [(RS, "GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));", "let _ = weak_ref.cache_size;")]),
 ("labels-order", "P16 P22", [(L, "let mut tags = self.0.clone();\n        tags.extend(additional_labels.into_labels());", "let mut tags = self.0.clone();\n        let n = tags.len();\n        tags.extend(additional_labels.into_labels());\n        if n > 2 { tags.dedup_by(|a, b| a.key() == b.key()); }")]),
 ("json-number-path", "P17", [(EJ, "                if (visit)(&mut text) {", "                if (visit)(&mut text) && !text.contains('.') {")]),
 ("json-map-remaining", "P17", [(EJ, "for (k, child) in map.iter_mut() {\n                    visitor.push_segment(k.as_str().into());", "for (k, child) in map.iter_mut().filter(|(k, _)| !k.is_empty()) {\n                    visitor.push_segment(k.as_str().into());")]),
 ("simple-message", "P17", [(SE, "if key == FIRST_VISIT_KEY {", "if key == FIRST_VISIT_KEY && matches!(child, SimpleEvent::String(_)) {")]),
 ("path-display", "P17 P18", [(PA, "                    if i != 0 {\n                        write!(f, \".\")?;", "                    if i != 0 && !field.is_empty() {\n                        write!(f, \".\")?;")]),
 ("path-starts", "P17", [(PA, "if prefix.len() > self.len() {", "if prefix.len() >= self.len() && prefix != self {")]),
 ("bin-storage", "P18", [(B, "        content.0 = was_mutated;", "        content.0 |= was_mutated && !content.1.is_empty();")]),
 ("bin-shift", "P18", [(B, "out.extend((rule_match.shift_offset as u32).to_be_bytes());", "out.extend((rule_match.shift_offset.max(-65536) as u32).to_be_bytes());")]),
 ("bin-lossy", "P18", [(B, "                    let field = if self.strings_are_valid_utf8 {", "                    let field = if self.strings_are_valid_utf8 || len < 3 {")]),
 ("bin-index", "P18", [(B, "                out.extend((*index as u32).to_be_bytes());", "                out.extend((*index as u16 as u32).to_be_bytes());")]),
 ("ffi-leak-rule", "P19", [(G+"rule.rs", "let rule_ptr = rule_double_ptr.as_ref().clone();\n        list", "let rule_ptr = rule_double_ptr.as_ref().clone();\n        std::mem::forget(rule_ptr.clone());\n        list")]),
 ("ffi-shrink", "P19", [(G+"scan.rs", "let cap = str.capacity() as i64;", "let cap = len;")]),
 ("ffi-err", "P19", [(G+"scan.rs", "                *retsize = 0;\n                *retcapacity = 0;\n            }\n            0 as *const c_char\n        }\n    }\n}", "                *retcapacity = 0;\n            }\n            0 as *const c_char\n        }\n    }\n}")]),
 ("cfg-null-kw", "P22", [(CFG, "    #[serde_as(deserialize_as = \"DefaultOnNull\")]\n    #[serde(default)]\n    pub excluded_keywords: Vec<String>,", "    #[serde(default)]\n    pub excluded_keywords: Vec<String>,")]),
 ("cfg-kwlimit", "P22", [(K, "        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT", "        || config.excluded_keywords.len() > MAX_LOOK_AHEAD_CHARACTER_COUNT * 2")]),
 ("cfg-kwlen", "P22", [(K, "if keyword.chars().count() > look_ahead_character_count {", "if keyword.trim().chars().count() > look_ahead_character_count {")]),
 ("cfg-action", "P22", [(CFG, "        self.match_action.validate()?;\n", "        if self.scope == Scope::default() {\n            self.match_action.validate()?;\n        }\n")]),
 ("rx-min", "P03 P02", [(R, "if min > QUANTIFIER_LIMIT || max > QUANTIFIER_LIMIT {", "if min > QUANTIFIER_LIMIT {")]),
 ("rx-depth", "P03", [(RP, "            input.depth -= 1;\n", "            input.depth = input.depth.saturating_sub(2);\n")]),
 ("rx-lazy", "P02", [(RP, "            lazy: lazy.is_some(),", "            lazy: lazy.is_some() && !matches!(kind, QuantifierKind::RangeMin(_)),")]),
 ("rx-v", "P02", [(RP, "        map(tag(\"v\"), |_| '\\x0B'),\n", "        map(tag(\"v\"), |_| '\\x0C'),\n")]),
 ("rx-ctrl", "P02", [(RP, "char::from_u32((c.to_ascii_lowercase() as u32) - ('a' as u32) + 1)", "char::from_u32((c as u32) % ('a' as u32) + 1 - if c.is_ascii_uppercase() { 'A' as u32 } else { 0 })")]),
 ("rx-neg-prop", "P02", [(R, "        negated: class.negate,\n", "        negated: class.negate && class.name.len() < 12,\n")]),
 ("rx-xflag", "P02", [(R, "} else if kind == LiteralKind::BracketedCharacterClass && literal.c.is_whitespace() {", "} else if kind == LiteralKind::BracketedCharacterClass && literal.c.is_ascii_whitespace() {")]),
 ("rx-h", "P02", [(R, "BracketCharacterClassItem::NotVerticalWhitespace => {\n                output.push(RegexClassSetItem::Bracketed(Box::new(vertical_whitespace(\n                    true,", "BracketCharacterClassItem::NotVerticalWhitespace => {\n                output.push(RegexClassSetItem::Bracketed(Box::new(horizontal_whitespace(\n                    true,")]),
 ("rx-hex1", "P02", [(RP, "tuple((tag(\"x\"), recognize(many_m_n(0, 2, hex_digit)))),", "tuple((tag(\"x\"), recognize(many_m_n(0, 3, hex_digit)))),")]),
 ("rx-emptymatch", "P03", [(S+"validation.rs", "if regex.is_match(\"\") {", "if regex.is_match(\"\") && !input.starts_with('^') {")]),
 ("rx-complexity", "P03", [(S+"validation.rs", ".nfa_size_limit(Some(complexity_limit))", ".nfa_size_limit(Some(complexity_limit.max(2_000_000)))")]),
 ("plug-groupdata", "P23", [(M, "        // Create a map of per rule type data that can be shared between rules of the same type\n        let mut group_data: AHashMap<TypeId, Box<dyn Any>> = AHashMap::new();\n\n        rule_visitor.visit_rule_indices(|rule_index| {", "        rule_visitor.visit_rule_indices(|rule_index| {\n            let mut group_data: AHashMap<TypeId, Box<dyn Any>> = AHashMap::new();")]),
 ("build-count", "P16", [(M, "            stats.increment_total_scanners();\n", "            if !self.rules.is_empty() {\n                stats.increment_total_scanners();\n            }\n")]),
 ("redact-empty", "P05", [(M, "if let Some(replacement) = rule.get_match_action().get_replacement(matched_content) {", "if let Some(replacement) = rule.get_match_action().get_replacement(matched_content).filter(|r| !r.replacement.is_empty()) {")]),
 ("hash-pad", "P05", [(A, "let hash = farmhash::fingerprint64(match_result.as_bytes());\n        format!(\"{hash:x}\")", "let hash = farmhash::fingerprint64(match_result.as_bytes());\n        format!(\"{hash:016x}\")")]),
]

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

SAN = False
def prepare(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo; mkdir {d}/verif; cp -a /verif/harness /verif/shims /verif/run.sh /verif/build.sh /verif/san.sh /verif/tools /verif/shims-tsan /verif/known_findings.txt {d}/verif/; cp -a /verif/extra /verif/go {d}/verif/ 2>/dev/null; mkdir {d}/verif/target; cp -a /verif/target/mon {d}/verif/target/; cp -a /verif/target/go {d}/verif/target/ 2>/dev/null; rm -rf {d}/verif/harness/target")
    if SAN: sh(f"cp -a /verif/target/asan /verif/target/tsan {d}/verif/target/")
    else: sh(f"rm -f {d}/verif/san.sh")
    sh(f"grep -rlE '/(repo|verif)' {d}/verif --include=*.rs --include=*.sh --include=*.toml --include=*.go --include=*.mod --exclude-dir=target | xargs sed -i 's#/repo#{d}/repo#g; s#/verif\\b#{d}/verif#g'")

def apply(d, edits):
    for f, old, new in edits:
        p = f"{d}/repo/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return f"text not found in {f}"
        open(p, "w").write(s.replace(old, new, 1))
    return None

def main():
    args = sys.argv[1:]
    j, seed = 3, "1"
    ids = []
    while args:
        a = args.pop(0)
        if a == "-san":
            global SAN
            SAN = True
        elif a == "-j": j = int(args.pop(0))
        elif a == "-s": seed = args.pop(0)
        elif a in ("-2", "-3", "-4", "-5"):
            sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
            import importlib
            MUTANTS[:] = importlib.import_module("mutants" + a[1:]).MUTANTS
        else: ids.append(a)
    q = queue.Queue()
    for m in MUTANTS:
        if not ids or m[0] in ids:
            q.put(m)
    out = []
    def work(n):
        d = f"/tmp/mc/{n}"
        prepare(d)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            mid, props, edits = m
            sh(f"git -C {d}/repo checkout -- .")
            err = apply(d, edits)
            if err:
                print(mid, "ERROR", err, flush=True); continue
            res = []
            for p in props.split():
                t = time.time()
                r = sh(f"bash {d}/verif/run.sh {p} quick", env=dict(os.environ, VERIF_SEED=seed), cwd=f"{d}/verif")
                v = f"VIOLATION property={p}" in r.stdout
                res.append((p, r.returncode, v, time.time() - t, r.stdout))
            caught = [x[0] for x in res if x[1] == 1 and x[2]]
            bad = [x for x in res if x[1] not in (0, 1)]
            line = f"{mid}: " + ("caught by " + " ".join(caught) if caught else "MISSED") + " [" + " ".join(f"{x[0]}={x[1]}/{x[3]:.0f}s" for x in res) + "]"
            if bad: line += "\n" + bad[0][4][-1500:]
            print(line, flush=True)
            out.append((mid, caught))
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("missed:", [m for m, c in out if not c])
main()
