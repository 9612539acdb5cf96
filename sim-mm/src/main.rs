#[allow(dead_code)]
#[path = "../../sim-pak/src/refpak.rs"]
mod refpak;
mod ends;
#[allow(dead_code)]
mod integ;
mod mm;
mod world;
pub use ends::end_checks;
use simcore::{Property, Scenario};

const MM_REAL: &[&str] = &[
    "unreal_mod_manager (GUI code, background thread, configuration, dependency resolution, downloads), unreal_mod_integrator, unreal_mod_metadata, unreal_pak, unreal_asset, unreal_helpers (real sources)",
];
const MM_STUB: &[&str] = &[
    "std::fs/thread/sync/time/env/process and parking_lot: simstd (one thread runs at a time, seeded scheduler, virtual clock, fault injection, crash points, scratch root)",
    "egui/eframe: records the widgets of each frame; a seeded user clicks, types, drops files and closes the window",
    "reqwest: simulated servers and network faults; directories/open/steamlocate: fixed answers; game platforms: test doubles",
];
const MM_RULE: &str = "one evaluation = one process life of the mod manager (start, user actions, faults, end or crash) on the surviving disk; distinct = distinct event-log digests";
const MM_ASSUME: &[&str] = &["crash model: completed file operations survive, a crash can fall between any two of them and inside a write", "built without the cpp_loader feature"];

fn main() {
    simcore::driver::IN_MEMORY.store(true, std::sync::atomic::Ordering::Relaxed);
    let props = [
        Property {
            id: "M01",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "config", weight: 1, run: mm::config }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M02",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "settings", weight: 1, run: mm::settings }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M03",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "robust", weight: 1, run: mm::robust }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M04",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "installed", weight: 1, run: mm::installed_paks }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M05",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "downloads", weight: 1, run: mm::downloads }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M06",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "dependencies", weight: 1, run: mm::deps }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M07",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "import", weight: 1, run: mm::import }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
        Property {
            id: "M08",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 150_000,
            scenarios: &[Scenario { name: "launch", weight: 1, run: mm::launch }],
            rule: MM_RULE,
            real: MM_REAL,
            stub: MM_STUB,
            assumptions: MM_ASSUME,
        },
    ];
    simcore::main_with(&props)
}
