#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, sys
S = "sds/src/"
def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note)
PROPS = []
def add(*a): PROPS.append(P(*a))

add("P01", "Detection is exact: every match of every rule, and nothing else",
 "For every rule set and event, a scan reports exactly the matches that the rules define: the leftmost, non-overlapping matches of each rule's pattern in every string in scope, filtered by the rule's keywords, checksum and scope and by overlap resolution, each with its rule, path and range. Nothing that a rule matches is missed, nothing it does not match is reported, and content of any length, script or nesting is handled without a panic.",
 ["inputs", "configurations"], "All rule sets (pattern, action, scope, keywords, validator, blocked list, features) and all events (strings of any Unicode content, nested lists and maps, UTF-8 and UTF-16 indices).",
 "Tests pin single examples per feature; the guarantee is about interactions of patterns, keywords, overlaps and paths over all contents.",
 [S+"scanner/mod.rs", S+"scanner/regex_rule/compiled.rs", S+"scanner/regex_rule/regex_store.rs", S+"scoped_ruleset/mod.rs"],
 [("scan loop", S+"scanner/mod.rs scan_with_stats / ScannerContentVisitor"), ("match iteration and resumption after a false positive", S+"scanner/regex_rule/compiled.rs get_next_regex_start and the match generators"), ("pattern conversion", S+"normalization/rust_regex_adapter.rs")],
 "runtime monitoring: differential oracle (independent reference scanner) over every observed scan result",
 "Random and structured rule sets x events; the reference scanner shares no code with the implementation. Patterns use the generated part of the dialect; cases in which the oracle's step limit is hit are not judged.")
add("P02", "Patterns mean what the documented dialect says",
 "Every pattern of the supported regex dialect (literals and their escaped spellings, classes, Unicode properties, groups, inline flags, quantifiers, assertions) matches exactly the text it denotes under leftmost-first semantics. Two spellings of the same pattern behave identically, and flags apply exactly to their scope.",
 ["inputs", "programs"], "All patterns of the dialect x all contents.",
 "The tests compare converted pattern text for a fixed list; they do not observe what the converted pattern matches.",
 [S+"parser/regex_parser.rs", S+"parser/ast.rs", S+"normalization/rust_regex_adapter.rs", S+"validation.rs"],
 [("parser", S+"parser/regex_parser.rs"), ("conversion to the engine's syntax", S+"normalization/rust_regex_adapter.rs")],
 "runtime monitoring: differential oracle (own parser-free AST, printer and backtracking matcher) on observed matches",
 "Random patterns with random spellings, every one-atom pattern against every character of an alphabet in six flag settings, and assertions over all short multi-line contents.")
add("P03", "Pattern admission is consistent, bounded and safe",
 "For every string offered as a pattern, validation answers without a panic and agrees with whether a scanner can be built from it; patterns over the documented limits (nesting, repetition count, compiled complexity) and patterns that match the empty string are rejected with the documented reason. The complexity estimate of an accepted pattern is the smallest compiled-size limit it fits in, up to ten times the limit. A scanner built from any accepted pattern terminates on every input and only reports well-formed, non-empty matches.",
 ["inputs", "programs"], "All strings as patterns (valid, mutated and garbage), all contents.",
 "Tests try a dozen hand-written invalid patterns.",
 [S+"validation.rs", S+"parser/regex_parser.rs", S+"normalization/rust_regex_adapter.rs", S+"scanner/regex_rule/regex_store.rs"],
 [("validation entry points", S+"validation.rs"), ("limits", S+"parser/regex_parser.rs REGEX_NESTING_LIMIT; "+S+"normalization/rust_regex_adapter.rs QUANTIFIER_LIMIT; "+S+"validation.rs REGEX_COMPLEXITY_LIMIT")],
 "runtime monitoring: hostile pattern workload with panic, hang (CPU-time watchdog) and agreement monitors",
 "Grammar-based, mutated and garbage patterns; boundary families for every limit; exhaustive short token sequences in the thorough tier.")
add("P04", "Overlap resolution is deterministic and keeps the right match",
 "When matches of the rules overlap, the result contains no two overlapping matches, and which one survives follows the documented order: mutating before non-mutating, then earlier start, then longer, then the rule listed first. No match is dropped unless it overlaps one that is kept.",
 ["inputs", "configurations"], "All sets of candidate match ranges over all rules and actions.",
 "Tests cover a few pairs of overlapping matches; the order is over all sets of ranges and depends on three-way chains.",
 [S+"scanner/mod.rs", S+"match_action.rs"],
 [("sort and de-overlap", S+"scanner/mod.rs sort_and_remove_overlapping_rules")],
 "runtime monitoring: scripted plug-in rules emit chosen ranges; oracle checks the observed survivors",
 "Exhaustive over small range sets, random beyond; also through regex rules.")
add("P05", "Redaction changes exactly the matched text",
 "After a scan, every string is the original with each surviving mutating match replaced by what its action specifies (replacement text, keyed hash, or partial redaction of the requested number of characters from the requested side) and every other byte unchanged; strings without a surviving mutating match are untouched. The output is valid text, and no redacted character survives in place.",
 ["inputs", "configurations"], "All contents (including multi-byte characters), match sets and actions.",
 "Tests use short ASCII strings and one or two matches per action.",
 [S+"match_action.rs", S+"scanner/mod.rs", S+"encoding.rs"],
 [("mutation loop", S+"scanner/mod.rs apply_match_actions"), ("actions", S+"match_action.rs")],
 "runtime monitoring: differential oracle on the mutated event (independent implementation of each action)",
 "Hash actions are compared with an independent implementation of the keyed hash of the dependency.")
add("P06", "Reported positions address the returned event",
 "Start, end and shift of every reported match are in the encoding's own units (bytes or UTF-16 code units) of the returned event: the reported range of the mutated string is exactly the replacement (or the untouched match), and subtracting the accumulated shift yields the position in the original string. This holds for any number of mutating matches in one string and any mix of character widths.",
 ["inputs", "configurations"], "All events x rule sets x encodings.",
 "Tests check a handful of positions, mostly ASCII and UTF-8.",
 [S+"encoding.rs", S+"scanner/mod.rs", S+"rule_match.rs"],
 [("index conversion", S+"encoding.rs Encoding::calculate_indices"), ("shift accumulation", S+"scanner/mod.rs apply_match_actions")],
 "runtime monitoring: invariant monitor on every reported match plus differential oracle, in three encodings",
 "Encodings: UTF-8, UTF-16 and a character-counting one of the harness.")
add("P07", "Included keywords gate matches exactly",
 "A rule with included keywords reports a match exactly when one of the keywords, as a whole word and regardless of case and of the documented separators, begins within the configured number of characters before the match (or an accepted path keyword applies), measured in characters. The distance, word boundaries and case rules hold for every script and at the very start of the text.",
 ["inputs", "configurations"], "All keyword lists, look-ahead counts 1..50, contents and patterns.",
 "Tests sample a few distances and keywords.",
 [S+"proximity_keywords/mod.rs", S+"proximity_keywords/included_keywords.rs", S+"scanner/regex_rule/compiled.rs"],
 [("included keyword search", S+"proximity_keywords/*"), ("scanning after a keyword", S+"scanner/regex_rule/compiled.rs IncludedKeywords branch")],
 "runtime monitoring: differential oracle; exhaustive distance/boundary families",
 "Nested keyword occurrences whose earliest-search order is unspecified are not judged.")
add("P08", "Excluded keywords suppress matches exactly",
 "A rule with excluded keywords drops a match exactly when one of the keywords, as a whole word regardless of case, lies within the configured number of characters before it, and keeps it otherwise. Characters are counted (not bytes), the window is cut at a character boundary, and a dropped match never hides a later match.",
 ["inputs", "configurations"], "All keyword lists, look-ahead counts, contents and patterns.",
 "Tests sample a few distances and keywords.",
 [S+"proximity_keywords/excluded_keywords.rs", S+"proximity_keywords/mod.rs", S+"scanner/regex_rule/compiled.rs"],
 [("excluded keyword window", S+"proximity_keywords/mod.rs get_prefix_start / is_false_positive_match")],
 "runtime monitoring: differential oracle; exhaustive distance/boundary families",
 "")
add("P09", "Keywords in the event path count as documented",
 "With keyword scanning of paths enabled, a rule's included keywords are also satisfied by the path of the string (compared after the documented standardisation of separators and case changes), and excluded keywords are never taken from the path; with it disabled paths have no effect. The standardised path text depends only on the path segments.",
 ["inputs", "configurations"], "All paths (fields and indices), separators, casings and keyword lists.",
 "Tests sample a few paths.",
 [S+"path.rs", S+"proximity_keywords/mod.rs", S+"scoped_ruleset/mod.rs", S+"scanner/regex_rule/compiled.rs"],
 [("path sanitisation", S+"path.rs sanitize"), ("path keyword test", S+"proximity_keywords/included_keywords.rs apply_is_path_keyword")],
 "runtime monitoring: differential oracle over tree-shaped events, direct monitor of the sanitised paths",
 "")
add("P10", "Rule scope is honoured exactly",
 "A rule is applied to a string exactly when the string's path is selected by the rule's scope: everything except the excluded paths and what lies below them, or only the included paths and what lies below them minus the excluded ones. With implicit index wildcarding, list indices may be left out of scope paths; shared prefixes, repeated fields and indices, empty paths and nested scopes do not change the result.",
 ["inputs", "configurations"], "All scopes x event trees.",
 "Tests try a few scope/event pairs.",
 [S+"scoped_ruleset/mod.rs", S+"scoped_ruleset/bool_set.rs", S+"scanner/scope.rs"],
 [("rule tree and traversal", S+"scoped_ruleset/mod.rs")],
 "runtime monitoring: differential oracle (path-prefix definition of scope) over tree-shaped events",
 "")
add("P11", "Excluded-match feedback removes only proven false positives",
 "With multi-pass exclusion, a value that a rule matched at a path excluded for that rule is no longer reported anywhere in the same event, and every such removal is counted as a false positive; with it disabled nothing is removed. Redaction follows the same decision, and values never leak from one event to the next.",
 ["inputs", "configurations", "histories"], "All events x scopes x features, sequences of events.",
 "Tests cover three events.",
 [S+"scanner/mod.rs", S+"scoped_ruleset/mod.rs"],
 [("excluded match set", S+"scanner/mod.rs ExcludedMatches / MultipassV0")],
 "runtime monitoring: differential oracle including the false-positive counters",
 "Values inserted by far-from-keyword matches of rules that combine included keywords and excluded paths are not judged.")
add("P12", "Checksum validators accept exactly the valid values",
 "Each built-in secondary validator accepts a match exactly when its checksum or structure is correct (Luhn, Chinese id, Github token, NHS number, French NIR, IBAN, JWT claims/expiry), for any separators it tolerates, and never panics on any text. A match that fails its validator is not reported and does not hide a later match.",
 ["inputs"], "All strings for every validator, directly and through a scanner.",
 "Tests list a few valid and invalid values per validator.",
 [S+"secondary_validation/mod.rs", S+"secondary_validation/luhn_checksum.rs", S+"secondary_validation/iban_checker.rs", S+"secondary_validation/jwt_expiration_checker.rs"],
 [("validators", S+"secondary_validation/*.rs"), ("dispatch", S+"secondary_validation/mod.rs SecondaryValidator")],
 "runtime monitoring: differential oracle (independent checksum implementations), valid values, all one-character corruptions, garbage",
 "")
add("P13", "Blocked rules are skipped, and only they",
 "Rules listed as blocked for a scan are never evaluated and report nothing; all other rules behave as if the blocked ones were not in the scanner. Blocking is per scan and order or duplicates in the list do not matter.",
 ["inputs", "histories", "configurations"], "All blocked lists, events and rule sets.",
 "One test blocks one rule.",
 [S+"scanner/mod.rs"],
 [("blocked rules", S+"scanner/mod.rs visit_rule / rules_to_block")],
 "runtime monitoring: differential oracle plus a call monitor inside plug-in rules",
 "")
add("P14", "Concurrent scans give the same results as sequential ones",
 "Any number of threads may scan with one scanner, build and drop scanners, and validate patterns at the same time: every scan returns what it returns alone, without data races, deadlock or panic. A scan that panics in a rule does not affect any other scan.",
 ["schedules", "histories"], "All interleavings of scans, scanner construction and destruction.",
 "All existing tests are single-threaded.",
 [S+"scanner/mod.rs", S+"scanner/regex_rule/regex_store.rs", S+"scanner/shared_pool.rs", S+"scanner/regex_rule/regex_cache_store.rs"],
 [("cache pool", S+"scanner/shared_pool.rs"), ("shared regex store", S+"scanner/regex_rule/regex_store.rs")],
 "runtime monitoring: threaded stress with per-scan oracle, seeded delays; the same workload under ThreadSanitizer",
 "")
add("P15", "A scan's result depends only on its rules and its event",
 "Whatever scanners were built, used, dropped or failed before, and however many patterns were interned or evicted, a scanner built from given rules returns the same result for the same event as in a fresh process; scanning one event never influences the next. Rules that share a pattern, a keyword list or an equal text never mix up their results.",
 ["histories"], "All sequences of building, scanning, dropping, failing builds, panicking rules, and store garbage collections.",
 "Tests start from an (almost) fresh store and build one scanner each.",
 [S+"scanner/regex_rule/regex_store.rs", S+"scanner/regex_rule/regex_cache_store.rs", S+"scanner/shared_pool.rs"],
 [("regex store and its garbage collection", S+"scanner/regex_rule/regex_store.rs"), ("per-scanner cache pool", S+"scanner/shared_pool.rs")],
 "runtime monitoring: history fuzzing with an oracle after every operation, comparison with a fresh process",
 "")
add("P16", "Metrics account for every event, match and scanner",
 "Counters and gauges reflect exactly what happened: one scanned event per scan and one match count per reported match (under the scanner's labels), one false positive per suppressed match of each kind (under the scanner's and the rule's labels), the scanning duration under the scanner's labels, one creation and deletion per scanner, and gauges that return to their value once scanners are dropped. Scanner and rule labels are attached to exactly their own metrics.",
 ["histories", "inputs"], "All sequences of builds, scans and drops with any labels.",
 "Tests check single counters once.",
 [S+"scanner/metrics.rs", S+"stats.rs", S+"observability/labels.rs", S+"scanner/mod.rs"],
 [("scanner metrics", S+"scanner/metrics.rs"), ("global gauges", S+"stats.rs")],
 "runtime monitoring: recorded metric log checked for conservation against the observed results and the reference scanner",
 "Gauges are judged at quiescent points only.")
add("P17", "Events of every representation are traversed completely and alike",
 "Scanning a plain string, a simple event, a JSON value, a map or a binary-encoded event visits every string exactly once under its correct path and applies redactions to exactly that string; equal content in different representations gives equal matches. Non-string values are left as they are and the structure (keys, order, length, types) is preserved.",
 ["inputs"], "All trees of values in all representations.",
 "Tests use one or two small events per representation.",
 [S+"event.rs", S+"event_json.rs", S+"simple_event.rs", S+"path.rs", "sds-bindings-utils/src/binary_encoding.rs"],
 [("event traversal", S+"event.rs, "+S+"event_json.rs, "+S+"simple_event.rs")],
 "runtime monitoring: trace monitor wrapped around the event (visits, paths, mutations) and cross-representation comparison",
 "")
add("P18", "Binary event encoding is lossless and rejects nothing valid",
 "Decoding an encoded event reproduces its strings and paths, and the encoded response carries every match (rule, path, replacement type, start, end, shift) and every mutated string exactly once, decodable by the documented format; nothing is returned when there is nothing to report. Malformed input gives an error rather than a crash or an out-of-bounds access.",
 ["inputs"], "All events, all response contents, all byte strings as input.",
 "Tests round-trip a few events.",
 ["sds-bindings-utils/src/binary_encoding.rs", "sds-bindings-utils/src/lib.rs"],
 [("decoder/encoder", "sds-bindings-utils/src/binary_encoding.rs")],
 "runtime monitoring: round-trip and conservation monitors on random and mutated buffers, with an independent codec; the same workload under AddressSanitizer",
 "")
add("P19", "The native interface never leaks, double-frees or unwinds",
 "Every sequence of calls across the native boundary (create rules and lists, build, scan, free, failing builds, malformed input) that follows the ownership rules is memory-safe, releases all memory it handed out, keeps handles valid until they are deleted, and reports failures as error codes or messages instead of crashing. Scan results through the boundary equal those of the native library.",
 ["histories", "inputs", "fault_sequences"], "All call sequences respecting ownership; malformed inputs and panicking rules.",
 "There are no tests of the native layer's memory behaviour.",
 ["sds-go/rust/src/lib.rs", "sds-go/rust/src/native/create_scanner.rs", "sds-go/rust/src/native/scan.rs", "sds-bindings-utils/src/lib.rs"],
 [("FFI entry points", "sds-go/rust/src/native/*.rs")],
 "runtime monitoring: allocation-tracking monitor over random call sequences; the same workload under AddressSanitizer and ThreadSanitizer",
 "")
add("P20", "The Go bindings report what the library reports",
 "For every rule configuration and event given to the Go package, the decoded results (matches, indices, replacement types, mutated event) equal those of the library for the same configuration, and configurations the library rejects are rejected with the corresponding error. Encoding and decoding on the Go side are lossless for every event shape the package accepts, and native memory is released however often rules, scanners and scans are repeated.",
 ["inputs", "configurations"], "All rule configurations and events expressible in the Go package.",
 "Go tests need the linked library and are not part of the pinned suite; they sample a few events.",
 ["sds-go/go/scanner.go", "sds-go/go/rule.go", "sds-go/go/regex_rule.go", "sds-go/rust/src/native/scan.rs"],
 [("Go encoding and decoding", "sds-go/go/*.go")],
 "runtime monitoring: differential run of the Go package (linked to the real library) against the library itself",
 "")
add("P21", "Match validation reports the service's verdict for every match",
 "Validating matches calls the configured service with the matched secret (never another one) and gives every match the status that the service's answers imply, in the documented order of precedence; matches of rules without validation are kept unchanged. Every match is returned exactly once and unchanged but for its status, in order of position, whatever the service answers (errors, delays, refused connections) and however many matches and rules there are; statuses merge by precedence (valid, error, invalid, not available, not checked) independent of order.",
 ["inputs", "fault_sequences", "configurations"], "All match sets, endpoint configurations and service behaviours.",
 "Tests use one mock answer at a time.",
 [S+"match_validation/http_validator.rs", S+"match_validation/aws_validator.rs", S+"match_validation/config.rs", S+"match_validation/match_status.rs", S+"scanner/mod.rs"],
 [("validate_matches", S+"scanner/mod.rs"), ("validators", S+"match_validation/*.rs")],
 "runtime monitoring: loopback mock service with a recorded request log, fault injection, conservation and verdict oracle",
 "HTTP service behaviours: any status, slow, closing, garbage, truncated, never answering, refused; AWS requests are verified with an independent SigV4. Two rules with the same endpoints but different settings share the first one's settings and are not generated.")
add("P22", "Configurations are validated completely and round-trip",
 "A scanner is built exactly when every rule's configuration is within the documented limits (pattern, keyword counts and lengths, look-ahead range, redaction parameters), and the error names the kind of the first problem. Serialising a rule configuration and reading it back yields an equal configuration that behaves the same, and defaults apply when optional fields are absent.",
 ["configurations"], "All configurations around every limit.",
 "Tests check single limits.",
 [S+"scanner/config.rs", S+"scanner/regex_rule/config.rs", S+"scanner/error.rs", S+"proximity_keywords/mod.rs", S+"match_action.rs", S+"scanner/scope.rs"],
 [("validation at build time", S+"proximity_keywords/mod.rs validate_keywords; "+S+"match_action.rs validate; "+S+"scanner/mod.rs ScannerBuilder::build")],
 "runtime monitoring: boundary-value workload with an admission oracle; serialisation round-trip monitor",
 "")
add("P23", "Plug-in rules are driven according to their contract",
 "Custom rule kinds are compiled once per scanner, called once per string that is in their scope with that string's content and the right path and exclusion test, see state shared per string, per scan and per scanner exactly at those granularities, and everything they emit is reported. State of one scan or thread is never visible to another.",
 ["histories", "schedules", "inputs"], "All events, rule mixes and scan sequences.",
 "Two tests register a custom rule.",
 [S+"scanner/mod.rs", S+"scanner/shared_pool.rs"],
 [("rule trait and data maps", S+"scanner/mod.rs CompiledRule / RuleConfig / SharedData")],
 "runtime monitoring: instrumented plug-in rules record every call; trace checker over the log",
 "")

CLAIMED = None  # all
def main():
    done = [x for x in sys.argv[1:]] or [p["id"] for p in PROPS]
    with open("/verif/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash /verif/build.sh && bash /verif/extra/P20.sh; bash /verif/san.sh build asan; bash /verif/san.sh build tsan; true",
        "hooks": {"guard": "none: only the public interface is used", "enable": "nothing to enable", "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bash /verif/run.sh {p['id']} quick",
            "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"] or "Bounded by the generated workload; see DESIGN.md.",
        } for p in PROPS if p["id"] in done],
        "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in PROPS if p["id"] not in done],
        "notes": "Checks build from /repo's working tree. VERIF_SEED selects the seed.",
    }
    json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
main()
