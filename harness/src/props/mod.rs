use crate::util::Ctx;
mod admission;
mod chars;
mod config;
mod ffi;
mod gobind;
mod repr;
mod scan;
pub mod state;
mod validate;

pub type PropFn = fn(&Ctx);

/// (id, what counts as a distinct non-trivial case, driver)
pub const PROPS: &[(&str, &str, PropFn)] = &[
    ("P01", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p01),
    ("P02", "a case is a pattern of the dialect scanned over several contents; distinct by the pattern text; non-trivial if it matched somewhere (or if all characters of the alphabet were tried)", scan::p02),
    ("P03", "a case is a string offered as a pattern, with contents scanned if it is accepted; distinct by the string", admission::p03),
    ("P04", "a case is a set of matches emitted by rules over a string; distinct by content, actions and ranges; non-trivial with at least two candidate matches", scan::p04),
    ("P05", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p05),
    ("P06", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p06),
    ("P07", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p07),
    ("P08", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p08),
    ("P09", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p09),
    ("P10", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p10),
    ("P11", "a case is a rule set and an event; distinct by their full text; non-trivial if at least one rule had a candidate match", scan::p11),
    ("P12", "a case is a validator and a value with all its one-character corruptions (or a text scanned by rules with validators); distinct by the text", admission::p12),
    ("P13", "a case is a rule set, an event and a list of blocked rules; distinct by their full text; non-trivial if blocking changed the result (or rules were blocked, for the call monitor)", scan::p13),
    ("P14", "a case is a set of scanners used by several threads; distinct by the observed order of their operations; non-trivial if at least two threads were inside a rule at once (pool: a pool and its users; first use: a fresh process)", state::p14),
    ("P15", "a case is a history of builds, scans, drops, failing builds, panicking scans and bursts of other patterns; distinct by the sequence of operations", state::p15),
    ("P16", "a case is a history of builds and scans with labels; distinct by rules, labels and events; non-trivial if something was counted", state::p16),
    ("P17", "a case is a tree of values presented in every representation; distinct by the tree (and rules); non-trivial if it has several strings (visits) or matches (scans)", repr::p17),
    ("P18", "a case is a byte buffer or a response; distinct by its content; non-trivial if it carries a string or a match", repr::p18),
    ("P19", "a case is a history of native calls (rules, lists, scanners, scans, frees, failures); distinct by the sequence of calls; non-trivial if it scanned", ffi::p19),
    ("P20", "a case is a rule set and events passed through the Go package (or configurations offered to it); distinct by the full request; non-trivial if a match was decoded", gobind::p20),
    ("P21", "a case is a set of validated rules, an event and a scripted service; distinct by the matches and their final statuses; non-trivial if the service was called (statuses: a sequence of merges; configurations: an endpoint and hosts)", validate::p21),
    ("P22", "a case is a rule configuration (or a set of them); distinct by the configuration", config::p22),
    ("P23", "a case is a set of plug-in rules and events; distinct by rules and events; non-trivial if a plug-in rule was called", state::p23),
];

pub fn rule_of(prop: &str) -> &'static str {
    PROPS.iter().find(|p| p.0 == prop).map(|p| p.1).unwrap_or("")
}
