//! Rules written against the public plugin interface. They emit scripted matches and record how
//! the scanner calls them.
use crate::model::{Act, MScope};
use ahash::AHashSet;
use dd_sds::{
    CompiledRule, CompiledRuleDyn, CreateScannerError, ExclusionCheck, InternalMatchValidationType, Labels,
    MatchAction, MatchEmitter, MatchValidationType, Path, RegexCaches, RuleConfig, Scope, StringMatch,
};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Byte ranges a rule emits for a content.
pub type Script = Arc<dyn Fn(&str) -> Vec<(usize, usize)> + Send + Sync>;

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub rule: usize,
    pub content: String,
    pub path: String,
    pub excluded: bool,
    /// identity and number of earlier uses of the group data (new for every string)
    pub group: (u64, u64),
    /// identity and number of earlier uses of the scan cache (new for every scan)
    pub cache: (u64, u64),
    /// rule indices the group configuration was built from
    pub config: Vec<usize>,
    pub kind: u8,
    /// labels the group data was created with
    pub labels: String,
    pub kw_paths: bool,
}
/// Called with the content and the address of the regex caches handed to the rule.
pub type Hook = Arc<dyn Fn(&str, usize) + Send + Sync>;

#[derive(Clone)]
pub struct ScriptCfg {
    pub act: Act,
    pub scope: MScope,
    pub script: Script,
    pub log: Option<Arc<Mutex<Vec<Call>>>>,
    pub multipass: bool,
    pub excluded_hits: Arc<AtomicU64>,
    /// insert what is emitted on excluded paths into the excluded matches, as regex rules do
    pub feed_excluded: bool,
    /// selects one of two unrelated rule types, each with its own group data
    pub kind: u8,
    /// another type of rule that shares the data of its kind
    pub alt: bool,
    pub match_validation: Option<MatchValidationType>,
    pub hook: Option<Hook>,
    /// (rule index, labels) of every compilation
    pub compiled: Option<Arc<Mutex<Vec<(usize, String)>>>>,
}
impl ScriptCfg {
    pub fn new(act: Act, script: Script) -> Self {
        ScriptCfg {
            act,
            scope: MScope::all(),
            script,
            log: None,
            multipass: false,
            excluded_hits: Arc::new(AtomicU64::new(0)),
            feed_excluded: false,
            kind: 0,
            alt: false,
            match_validation: None,
            hook: None,
            compiled: None,
        }
    }
    pub fn ranges(act: Act, r: Vec<(usize, usize)>) -> Self {
        Self::new(act, Arc::new(move |_| r.clone()))
    }
}

impl RuleConfig for ScriptCfg {
    fn convert_to_compiled_rule(
        &self,
        rule_index: usize,
        label: Labels,
    ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        if let Some(c) = &self.compiled {
            c.lock().unwrap().push((rule_index, format!("{label:?}")));
        }
        let r = Rule {
            idx: rule_index,
            action: self.act.to_sds(),
            scope: self.scope.to_sds(),
            cfg: self.clone(),
            internal: self
                .match_validation
                .as_ref()
                .map(|x| x.get_internal_match_validation_type()),
        };
        Ok(match (self.kind, self.alt) {
            (0, false) => Box::new(RuleA(r)),
            (0, true) => Box::new(RuleC(r)),
            (_, false) => Box::new(RuleB(r)),
            (_, true) => Box::new(RuleD(r)),
        })
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        self.match_validation.as_ref()
    }
}

struct Rule {
    idx: usize,
    action: MatchAction,
    scope: Scope,
    cfg: ScriptCfg,
    internal: Option<InternalMatchValidationType>,
}

static NEXT: AtomicU64 = AtomicU64::new(1);
fn fresh() -> u64 {
    NEXT.fetch_add(1, Ordering::SeqCst)
}

pub struct Counter<const K: u8> {
    id: u64,
    uses: u64,
    labels: String,
}
pub struct Cache<const K: u8> {
    id: u64,
    uses: u64,
}
pub struct Config<const K: u8>(Vec<usize>);

struct RuleA(Rule);
struct RuleB(Rule);
// other types of rules that name the same types of shared data
struct RuleC(Rule);
struct RuleD(Rule);

macro_rules! rule_impl {
    ($t:ident, $k:expr) => {
        impl CompiledRule for $t {
            type GroupData = Counter<$k>;
            type GroupConfig = Config<$k>;
            type RuleScanCache = Cache<$k>;
            fn create_group_data(labels: &Labels) -> Self::GroupData {
                Counter {
                    id: fresh(),
                    uses: 0,
                    labels: format!("{labels:?}"),
                }
            }
            fn create_group_config() -> Self::GroupConfig {
                Config(vec![])
            }
            fn create_rule_scan_cache() -> Self::RuleScanCache {
                Cache { id: fresh(), uses: 0 }
            }
            fn get_match_action(&self) -> &MatchAction {
                &self.0.action
            }
            fn get_scope(&self) -> &Scope {
                &self.0.scope
            }
            fn get_string_matches(
                &self,
                content: &str,
                path: &Path,
                caches: &mut RegexCaches,
                group: &mut Self::GroupData,
                config: &Self::GroupConfig,
                cache: &mut Self::RuleScanCache,
                exclusion: &ExclusionCheck<'_>,
                excluded_matches: &mut AHashSet<String>,
                emitter: &mut dyn MatchEmitter,
                _tp: &[usize],
                kw_paths: bool,
            ) {
                let r = &self.0;
                let excluded = exclusion.is_excluded(r.idx);
                if let Some(log) = &r.cfg.log {
                    log.lock().unwrap().push(Call {
                        rule: r.idx,
                        content: content.to_string(),
                        path: format!("{:?}", path.segments),
                        excluded,
                        group: (group.id, group.uses),
                        cache: (cache.id, cache.uses),
                        config: config.0.clone(),
                        kind: $k,
                        labels: group.labels.clone(),
                        kw_paths,
                    });
                }
                if let Some(h) = &r.cfg.hook {
                    h(content, caches as *mut RegexCaches as usize);
                }
                group.uses += 1;
                cache.uses += 1;
                for (start, end) in (r.cfg.script)(content) {
                    if excluded {
                        if r.cfg.feed_excluded {
                            excluded_matches.insert(content[start..end].to_string());
                        }
                    } else {
                        emitter.emit(StringMatch { start, end });
                    }
                }
            }
            fn should_exclude_multipass_v0(&self) -> bool {
                self.0.cfg.multipass
            }
            fn on_excluded_match_multipass_v0(&self) {
                self.0.cfg.excluded_hits.fetch_add(1, Ordering::SeqCst);
            }
            fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
                self.0.cfg.match_validation.as_ref()
            }
            fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
                self.0.internal.as_ref()
            }
            fn process_scanner_config(&self, c: &mut Self::GroupConfig) {
                c.0.push(self.0.idx);
            }
        }
    };
}
rule_impl!(RuleA, 0);
rule_impl!(RuleB, 1);
rule_impl!(RuleC, 0);
rule_impl!(RuleD, 1);
