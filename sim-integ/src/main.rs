//! The integrator and github_helpers on the simulated std.  A crate of its own,
//! so that these checks do not depend on the GUI stubs of the mod manager.
#[allow(dead_code)]
#[path = "../../sim-pak/src/refpak.rs"]
mod refpak;
#[path = "../../sim-mm/src/ends.rs"]
mod ends;
#[path = "../../sim-mm/src/gh.rs"]
mod gh;
#[allow(dead_code)]
#[path = "../../sim-mm/src/integ.rs"]
mod integ;
#[allow(dead_code)]
#[path = "../../sim-mm/src/world.rs"]
mod world;
#[allow(dead_code)]
#[path = "../../sim-asset/src/model.rs"]
mod model;
#[path = "../../sim-mm/src/persist.rs"]
mod persist;
pub use ends::end_checks;
use simcore::{Property, Scenario};

const REAL: &[&str] = &[
    "unreal_mod_integrator, unreal_mod_metadata, unreal_pak, unreal_asset, unreal_helpers (real sources)",
];
const STUB: &[&str] = &[
    "std::fs/thread/sync/time/env/process: simstd (seeded scheduler, fault injection, scratch root)",
    "reqwest: simulated servers",
    "cooked integrator assets: made by the reference asset encoder instead of the engine",
];

fn main() {
    simcore::driver::IN_MEMORY.store(true, std::sync::atomic::Ordering::Relaxed);
    let props = [
        Property {
            id: "I01",
            level: "exploration",
            quick_runs: 20_000,
            thorough_runs: 400_000,
            scenarios: &[Scenario { name: "integrate", weight: 1, run: integ::integrate }],
            rule: "one evaluation = one integrate_mods call judged by its result and the paks directory; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &[],
        },
        Property {
            id: "I02",
            level: "exploration",
            quick_runs: 20_000,
            thorough_runs: 400_000,
            scenarios: &[Scenario { name: "persistent_actors", weight: 1, run: persist::persistent_actors }],
            rule: "one evaluation = one integrate_mods call or one resulting map judged; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["names without instance number; component classes are imported from a package"],
        },
        Property {
            id: "G01",
            level: "fault_enumeration",
            quick_runs: 30_000,
            thorough_runs: 400_000,
            scenarios: &[Scenario { name: "github", weight: 1, run: gh::download }],
            rule: "one evaluation = one download or release query; distinct = distinct event-log digests",
            real: &["github_helpers (real source)"],
            stub: STUB,
            assumptions: &["a body that ends early without any announced length cannot be detected and is not injected"],
        },
    ];
    simcore::main_with(&props)
}
