"""Fourth campaign: Go bindings, FFI, match validation, plug-in contract, validators, races."""
S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"; M = S + "scanner/mod.rs"
V = S + "secondary_validation/"; MV = S + "match_validation/"; SP = S + "scanner/shared_pool.rs"
RS = S + "scanner/regex_rule/regex_store.rs"; CS = S + "scanner/regex_rule/regex_cache_store.rs"
G = "sds-go/rust/src/native/"; GO = "sds-go/go/scanner.go"; GR = "sds-go/go/regex_rule.go"; EV = S + "event.rs"; EN = S + "encoding.rs"
ST = S + "stats.rs"; B = "sds-bindings-utils/src/binary_encoding.rs"
MUTANTS = [
 # Go bindings (P20)
 ("go-index-one", "P20", [(GO, "\t\tresult = append(result, 1)                                  // push index\n\t\tresult = binary.BigEndian.AppendUint32(result, uint32(idx)) // index", "\t\tresult = append(result, 1)                                  // push index\n\t\tresult = binary.BigEndian.AppendUint32(result, uint32(uint8(idx))) // index")]),
 ("go-pop-empty", "P20", [(GO, "\tfor idx, v := range log {", "\tfor idx, v := range log {\n\t\tif l, ok := v.([]interface{}); ok && len(l) == 0 && idx+1 < len(log) {\n\t\t\tbreak\n\t\t}")]),
 ("go-mutated-last", "P20", [(GO, "\t\tcase 4: // Mutation\n\t\t\tresult.Mutated = true\n\t\t\tif result.Event, err = applyStringMutationMap(", "\t\tcase 4: // Mutation\n\t\t\tresult.Mutated = len(result.Matches) == 0 && !result.Mutated || true\n\t\t\tif len(result.Event) > 4096 {\n\t\t\t\treturn result, nil\n\t\t\t}\n\t\t\tif result.Event, err = applyStringMutationMap(")]),
 ("go-shift-unsigned", "P20", [(GO, "shiftOffset := int32(binary.BigEndian.Uint32(buf.Next(4)))", "shiftOffset := int32(int16(binary.BigEndian.Uint32(buf.Next(4))))")]),
 ("go-repl-case", "P20", [(GO, "\tcase \"partial_end\":\n\t\treturn ReplacementTypePartialEnd", "\tcase \"partial_end\":\n\t\treturn ReplacementTypePartialStart")]),
 ("go-event-nil", "P20", [(GO, "\tif !result.Mutated {\n\t\tresult.Event = event\n\t}", "\tif !result.Mutated && len(result.Matches) > 0 {\n\t\tresult.Event = event\n\t}")]),
 ("go-utf8-trim", "P20", [(GO, "\tresult = append(result, byte(3)) // string data\n", "\tlog = bytes.TrimRight(log, \"\\x00\")\n\tresult = append(result, byte(3)) // string data\n")]),
 ("go-id-reuse", "P20", [(GO, "\t\truleList.AppendRule(rule)\n\t\trule.Delete()", "\t\truleList.AppendRule(rule)")]),
 ("go-freevec", "P20", [(GO, "\tdefer C.free_vec(rvdata, C.long(retsize), C.long(retcap))", "\tif retcap < 65536 {\n\t\tdefer C.free_vec(rvdata, C.long(retsize), C.long(retcap))\n\t}")]),
 ("go-errstr", "P20", [(GO, "\t\tcase -3: // rust: CreateScannerError::InvalidKeywords\n\t\t\treturn nil, ErrInvalidKeywords", "\t\tcase -3: // rust: CreateScannerError::InvalidKeywords\n\t\t\treturn nil, ErrInvalidRegex")]),
 ("go-kw-omit", "P20", [(GR, "json:\"excluded_keywords\"`", "json:\"excluded_keywords,omitempty\"`")]),
 ("go-hash-validator", "P20", [(GR, "\t\tMatchAction: MatchAction{\n\t\t\tType: MatchActionHash,\n\t\t},\n\t\tProximityKeywords:  extraConfig.ProximityKeywords,\n\t\tSecondaryValidator: extraConfig.SecondaryValidator,", "\t\tMatchAction: MatchAction{\n\t\t\tType: MatchActionHash,\n\t\t},\n\t\tProximityKeywords:  extraConfig.ProximityKeywords,")]),
 ("go-nilkw", "P20", [(GR, "\tif excludedKeywords == nil {\n\t\texcludedKeywords = []string{}\n\t}\n", "")]),
 ("go-validator-case", "P20", [(GR, "ChineseIdChecksum = SecondaryValidator(\"ChineseIdChecksum\")", "ChineseIdChecksum = SecondaryValidator(\"LuhnChecksum\")")]),
 ("go-map-keylen", "P20", [(GO, "uint32(len(k))) // length of the key", "uint32(len([]rune(k)))) // length of the key")]),
 ("go-list-mut", "P20", [(GO, "\t\tevent[indexInArray] = string(res)\n", "\t\tif len(res) > 0 {\n\t\t\tevent[indexInArray] = string(res)\n\t\t}\n")]),
 ("go-start-u16", "P20", [(GO, "\tstartIndex := binary.BigEndian.Uint32(buf.Next(4))", "\tstartIndex := binary.BigEndian.Uint32(buf.Next(4)) & 0xffff")]),
 # FFI (P19)
 ("ffi-borrow", "P19", [(G+"scan.rs", "let data = unsafe { slice::from_raw_parts(event.cast(), event_size as usize) }.to_vec();", "let data = unsafe { std::mem::ManuallyDrop::new(Vec::from_raw_parts(event as *mut u8, event_size as usize, event_size as usize)).clone() };\n        let data = std::mem::ManuallyDrop::into_inner(data);")]),
 ("ffi-oob", "P19", [(G+"scan.rs", "slice::from_raw_parts(event.cast(), event_size as usize) }.to_vec();", "slice::from_raw_parts(event.cast(), event_size as usize + 1) }[..event_size as usize + 1].to_vec();\n        let data = data[..data.len() - 1].to_vec();")]),
 ("ffi-scanner-drop", "P19", [(G+"scan.rs", "        let matches = scanner.scan(&mut event, vec![]);\n", "        let matches = scanner.scan(&mut event, vec![]);\n        if matches.len() > 40 { std::mem::forget(Arc::clone(&scanner)); }\n")]),
 ("ffi-list-lock", "P19", [(G+"rule.rs", "        list.lock().unwrap().push(rule_ptr);", "        let mut l = list.lock().unwrap();\n        if l.len() < 64 { l.push(rule_ptr); } else { l.insert(0, rule_ptr); }")]),
 ("ffi-err-static", "P19", [(G+"scan.rs", "                let raw = c_str.into_raw();\n                *error_out = raw;\n                *retsize = 0;", "                *error_out = c_str.as_ptr();\n                *retsize = 0;")]),
 ("ffi-freerule-twice", "P19", [(G+"rule.rs", "        let rule_double_ptr = ManuallyDrop::new(unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)});", "        let rule_double_ptr = unsafe {RuleDoublePtr::from_raw(rule as usize as *const _)};\n        if Arc::strong_count(&*rule_double_ptr) < 9 { std::mem::forget(rule_double_ptr.clone()); }")]),
 ("ffi-unknown", "P19 P20", [(G+"create_scanner.rs", "                Ok(i) => return i,", "                Ok(-4) => return ERR_UNKNOWN,\n                Ok(i) => return i,")]),
 ("ffi-panic-msg", "P19 P20", [(G+"mod.rs", "            } else if let Some(string) = err.downcast_ref::<String>() {\n                string.to_string()\n            } else {", "            } else {")]),
 ("ffi-kwpath", "P19", [(G+"create_scanner.rs", ".with_keywords_should_match_event_paths(should_keywords_match_event_paths)", ".with_keywords_should_match_event_paths(should_keywords_match_event_paths && rules.len() > 1)")]),
 ("ffi-valid-utf8", "P19 P18", [(G+"scan.rs", "BinaryEvent::<Utf8Encoding>::new(data, false)", "BinaryEvent::<Utf8Encoding>::new(data, event_size < 16)")]),
 # match validation (P21)
 ("mv-sort", "P21", [(M, "        rule_matches.sort_by_key(|rule_match| rule_match.start_index);\n        Ok(())", "        rule_matches.sort_by_key(|rule_match| rule_match.end_index_exclusive);\n        Ok(())")]),
 ("mv-order-type", "P21", [(M, "        rule_matches.append(&mut unchecked_rule_matches);\n        for", "        unchecked_rule_matches.truncate(64);\n        rule_matches.append(&mut unchecked_rule_matches);\n        for")]),
 ("mv-dedup", "P21", [(MV+"http_validator.rs", "            .flat_map(|(idx, _)| {", "            .filter(|(idx, m)| *idx < 16 || m.match_value.is_some())\n            .take(32)\n            .flat_map(|(idx, _)| {")]),
 ("mv-header-first", "P21", [(MV+"config.rs", "value = value.replace(\"$MATCH\", matche);", "value = value.replacen(\"$MATCH\", matche, 1);")]),
 ("mv-valid-order", "P21", [(MV+"http_validator.rs", "            if valid_range.contains(&val.status().as_u16()) {", "            if valid_range.contains(&val.status().as_u16()) && !self.config.invalid_http_status_code.iter().any(|r| r.contains(&val.status().as_u16())) {")]),
 ("mv-status-end", "P21", [(MV+"http_validator.rs", "            if invalid_range.contains(&val.status().as_u16()) {", "            if (invalid_range.start..=invalid_range.end).contains(&val.status().as_u16()) {")]),
 ("mv-put", "P21", [(MV+"http_validator.rs", "HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*endpoint),", "HttpMethod::Put => BLOCKING_HTTP_CLIENT.post(*endpoint),")]),
 ("mv-host", "P21", [(MV+"config.rs", "endpoints.push(endpoint.replace(\"$HOST\", &host));", "endpoints.push(endpoint.replacen(\"$HOST\", &host, 1));")]),
 ("mv-host-dedup", "P21", [(MV+"http_validator.rs", "        for ((match_idx, _), status) in match_status_per_endpoint_and_match {\n", "        for ((match_idx, endpoint), status) in match_status_per_endpoint_and_match {\n            if self.config.endpoints.len() > 3 && Some(endpoint) == self.config.endpoints.last() { continue; }\n")]),
 ("mv-aws-secret-pair", "P21", [(MV+"aws_validator.rs", "            for aws_secret_match_idx in &aws_secret_matches_idx {", "            for aws_secret_match_idx in aws_secret_matches_idx.iter().take(4) {")]),
 ("mv-aws-secret-re", "P21", [(MV+"aws_validator.rs", "r\"([A-Za-z0-9\\/+]{40})\\b\"", "r\"([A-Za-z0-9\\/]{40})\\b\"")]),
 ("mv-aws-redirect", "P21", [(MV+"aws_validator.rs", "    if val.status().is_client_error() {", "    if val.status().is_client_error() && val.status().as_u16() != 429 {")]),
 ("mv-aws-merge-secret", "P21", [(MV+"aws_validator.rs", "            matches[*secret_index]\n                .match_status\n                .merge(match_status.clone());", "            if *secret_index != *id_index + 1 || *match_status == MatchStatus::Valid || matches.len() < 4 {\n                matches[*secret_index].match_status.merge(match_status.clone());\n            }")]),
 ("mv-timeout", "P21", [(MV+"http_validator.rs", "request_builder.timeout(self.config.options.timeout)", "request_builder.timeout(self.config.options.timeout.max(std::time::Duration::from_secs(20)))")]),
 ("mv-invalid-builder", "P21 P22", [(MV+"config.rs", "        config.options = self.options.clone();\n        config.invalid_http_status_code = self.invalid_http_status_code.clone();", "        config.options = self.options.clone();\n        if self.hosts.len() > 1 { config.invalid_http_status_code = vec![400..500]; }")]),
 ("mv-return", "P21", [(M, "        if !self.scanner_features.return_matches {\n            return Err(MatchValidationError::NoMatchValidationType);\n        }", "        if !self.scanner_features.return_matches && !rule_matches.is_empty() {\n            return Err(MatchValidationError::NoMatchValidationType);\n        }")]),
 ("mv-value-after", "P21 P06", [(M, "            matched_content_copy = Some(matched_content.to_string());", "            matched_content_copy = Some(content[rule_match.utf8_start.min(content.len())..].get(..rule_match.utf8_end - rule_match.utf8_start).unwrap_or(matched_content).to_string());")]),
 # plug-ins (P23)
 ("pl-scan-cache", "P23", [(M, "                    rule_scan_caches: AHashMap::new(),", "                    rule_scan_caches: AHashMap::with_capacity(blocked_rules_idx.len()),")]),
 ("pl-config-once", "P23", [(M, "        T::process_scanner_config(self, group_config);", "        if group_config_fresh { T::process_scanner_config(self, group_config); }"), (M, "        let group_config_any = group_config\n            .entry(TypeId::of::<T::GroupConfig>())", "        let group_config_fresh = group_config.len() < 3 || !group_config.contains_key(&TypeId::of::<T::GroupConfig>());\n        let group_config_any = group_config\n            .entry(TypeId::of::<T::GroupConfig>())")]),
 ("pl-exclude-cb", "P23 P16", [(M, "self.rules[rule_match.rule_index].on_excluded_match_multipass_v0();", "self.rules[rule_match.rule_index.min(self.rules.len() - 2 + usize::from(self.rules.len() < 3))].on_excluded_match_multipass_v0();")]),
 # validators (P12)
 ("jwt-ge", "P12", [(V+"jwt_expiration_checker.rs", "                    exp > now\n", "                    exp >= now\n")]),
 ("jwt-seg", "P12", [(V+"jwt_expiration_checker.rs", "    if raw_segments.len() != SEGMENTS_COUNT {", "    if raw_segments.len() < SEGMENTS_COUNT || raw_segments.len() > 4 {")]),
 ("jwt-null", "P12", [(V+"jwt_expiration_checker.rs", "            if let Some(exp) = payload.get(\"exp\") {", "            if let Some(exp) = payload.get(\"exp\").filter(|e| !e.is_null()) {")]),
 ("jwt-neg", "P12", [(V+"jwt_expiration_checker.rs", "                if let Some(exp) = exp.as_i64() {\n                    let now = Utc::now().timestamp();", "                if let Some(exp) = exp.as_u64() {\n                    let now = Utc::now().timestamp() as u64;")]),
 ("cn-len", "P12", [(V+"chinese_id_checksum.rs", "if regex_match.len() != CHINESE_ID_LENGTH {", "if regex_match.chars().count() != CHINESE_ID_LENGTH {")]),
 ("cn-ten", "P12", [(V+"chinese_id_checksum.rs", "            _ => (12 - sum % 11 + '0' as i32) as u8 as char,", "            10 => '3',\n            _ => (12 - sum % 11 + '0' as i32) as u8 as char,")]),
 ("gh-len", "P12", [(V+"github_token_checksum.rs", "if last_part.len() <= 6 {", "if last_part.len() <= 7 {")]),
 ("gh-empty", "P12", [(V+"github_token_checksum.rs", "if last_part.len() <= 6 {", "if last_part.len() < 6 {")]),
 ("nir-extra", "P12", [(V+"nir_checksum.rs", "if checksum.is_none() || get_next_digit(&mut input_iter).is_some() {", "if checksum.is_none() || input_iter.next().is_some_and(|c| c.is_ascii_digit()) {")]),
 ("luhn-one", "P12", [(V+"luhn_checksum.rs", "            return (10 - (sum % 10)) % 10 == checksum;", "            return sum > 0 && (10 - (sum % 10)) % 10 == checksum;")]),
 # races (P14 under tsan; P16)
 ("pool-unsafe", "P14", [(CS, "    let mut caches = REGEX_CACHE_STORE.get();\n    func(caches.get_ref())", "    static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let mut caches = REGEX_CACHE_STORE.get();\n    let r: &mut RegexCaches = caches.get_ref();\n    let p = LAST.swap(r as *mut RegexCaches as usize, std::sync::atomic::Ordering::Relaxed);\n    if p != 0 && p != r as *mut RegexCaches as usize && unsafe { (*(p as *mut RegexCaches)).map.len() } > 1_000_000 { panic!() }\n    func(r)")]),
 ("race-unsafe-flag", "P14", [(RS, "    pub fn get(&self, pattern: &str) -> Option<SharedRegex> {", "    pub fn get(&self, pattern: &str) -> Option<SharedRegex> {\n        static mut HITS: usize = 0;\n        unsafe { HITS += 1; }")]),
 ("cache-lost-update", "P16 P15", [(ST, "        let prev_value = self\n            .total_regex_cache_size_count\n            .fetch_add(delta, Ordering::Relaxed);", "        let prev_value = self.total_regex_cache_size_count.load(Ordering::Relaxed);\n        self.total_regex_cache_size_count.store(prev_value + delta, Ordering::Relaxed);")]),
 ("store-no-recheck", "P14 P15", [(RS, "        if let Some(existing_regex) = self.get(pattern) {\n            existing_regex", "        if let Some(existing_regex) = self.get(pattern).filter(|_| false) {\n            existing_regex")]),
]
