//! sds-monitor <PROPERTY> <quick|thorough> <seed>     run the monitors of one property
//! sds-monitor --replay <file>                         run one recorded case again
mod alloc;
mod events;
mod gen;
mod model;
mod plugin;
mod props;
mod rec;
mod rx;
mod rxparse;
mod util;
mod validators;

use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::Instant;

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--child") {
        props::state::child(&args[2], args[3].parse().unwrap());
        return;
    }
    let (prop, tier, seed, only) = if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay json");
        (
            v["property"].as_str().unwrap().to_string(),
            v["tier"].as_str().unwrap().to_string(),
            v["seed"].as_u64().unwrap(),
            Some((v["phase"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap())),
        )
    } else {
        (
            args.get(1).expect("property").clone(),
            args.get(2).cloned().unwrap_or("quick".into()),
            args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1),
            None,
        )
    };
    let f = match props::PROPS.iter().find(|p| p.0 == prop) {
        Some(p) => p.2,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let ctx = util::Ctx {
        prop,
        tier: if tier == "thorough" { util::Tier::Thorough } else { util::Tier::Quick },
        seed,
        only_case: only,
        start: Instant::now(),
        out: Mutex::new(Default::default()),
        stop: AtomicBool::new(false),
    };
    f(&ctx);
    std::process::exit(ctx.finish());
}
