#[path = "../../common/engine.rs"]
mod engine;
#[path = "../../common/svm.rs"]
mod svm;
mod apa_model;
mod proposal_model;
mod stats_model;
mod warden_model;
mod world;

use serde_json::Value;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: warden SUITE CONSTANTS.json EDGES OUT.json");
        std::process::exit(2);
    }
    svm::init_svm();
    world::register();
    let consts: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let edges = engine::load(&args[3]);
    let rep = svm::quiet_catch(|| match args[1].as_str() {
        "warden" => engine::replay(&warden_model::Wardens::new(&consts), &edges),
        "stats" => engine::replay(&stats_model::Stats::new(&consts), &edges),
        "apa" => engine::replay(&apa_model::Apa::new(&consts), &edges),
        "proposals" => engine::replay(&proposal_model::Proposals::new(&consts), &edges),
        s => panic!("unknown suite {s}"),
    })
    .unwrap_or_else(engine::failed_setup);
    std::fs::write(&args[4], rep.json().to_string()).unwrap();
}
