#[path = "../../common/engine.rs"]
mod engine;
#[path = "../../common/svm.rs"]
mod svm;
mod core_model;
mod container_model;
mod fees_model;
mod forge_model;
mod groth;
mod groth_model;
mod map_model;
mod nulls_model;
mod refhash;
mod setup_model;
mod spend_model;
mod vkey_model;
mod world;

use serde_json::Value;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: core SUITE CONSTANTS.json EDGES OUT.json");
        std::process::exit(2);
    }
    refhash::selftest();
    svm::init_svm();
    world::register();
    let consts: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let edges = engine::load(&args[3]);
    let rep = svm::quiet_catch(|| match args[1].as_str() {
        "core" => engine::replay(&core_model::Core::new(&consts), &edges),
        "spend" => engine::replay(&spend_model::Spend::new(&consts, engine::start(&args[3])), &edges),
        "nulls" => engine::replay(&nulls_model::Nulls::new(&consts), &edges),
        "map" => engine::replay(&map_model::Map::new(&consts), &edges),
        "groth" => engine::replay(&groth_model::Groth::new(&consts), &edges),
        "vkey" => engine::replay(&vkey_model::Vkey::new(&consts), &edges),
        "setup" => engine::replay(&setup_model::Setup::new(&consts), &edges),
        "forge" => engine::replay(&forge_model::Forge::new(&consts), &edges),
        "fees" => engine::replay(&fees_model::Fees::new(&consts), &edges),
        "containers" => engine::replay(&container_model::Containers::new(&consts), &edges),
        s => panic!("unknown suite {s}"),
    })
    .unwrap_or_else(engine::failed_setup);
    std::fs::write(&args[4], rep.json().to_string()).unwrap();
}
