#[allow(dead_code)]
#[path = "../../sim-pak/src/refpak.rs"]
mod refpak;
mod scen;
mod world;
use simcore::{Property, Scenario};

const REAL: &[&str] = &[
    "unreal_pak_cli: the real binary (argument parsing, WalkDir traversal, exit codes)",
    "unreal_pak, unreal_helpers, zlib",
    "Rust std file I/O",
];
const STUB: &[&str] = &[
    "operating system seam: fsshim.so numbers every file-system call inside the scratch root, injects faults/crashes, orders directory listings by seed, refuses and records writes outside the root",
];

fn main() {
    let props = [
        Property {
            id: "C01",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 60_000,
            scenarios: &[Scenario { name: "identity", weight: 1, run: scen::identity }],
            rule: "one evaluation = one directory tree packed, checked and extracted; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["file names are valid UTF-8 without backslashes", "regular files and directories only"],
        },
        Property {
            id: "C02",
            level: "fault_enumeration",
            quick_runs: 16_000,
            thorough_runs: 80_000,
            scenarios: &[
                Scenario { name: "create_faults", weight: 2, run: scen::create_faults },
                Scenario { name: "extract_faults", weight: 2, run: scen::extract_faults },
                Scenario { name: "check_faults", weight: 1, run: scen::check_faults },
            ],
            rule: "one evaluation = one command judged by its exit status and output; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &[],
        },
        Property {
            id: "C03",
            level: "fault_enumeration",
            quick_runs: 12_000,
            thorough_runs: 60_000,
            scenarios: &[
                Scenario { name: "create_crash", weight: 1, run: scen::create_crash },
                Scenario { name: "extract_crash", weight: 1, run: scen::extract_crash },
            ],
            rule: "one evaluation = one crash point followed by check/extract/re-run; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["process-crash semantics: completed system calls survive (nothing in the tool syncs)"],
        },
        Property {
            id: "C04",
            level: "fault_enumeration",
            quick_runs: 16_000,
            thorough_runs: 80_000,
            scenarios: &[Scenario { name: "containment", weight: 1, run: scen::containment }],
            rule: "one evaluation = one extraction of a (possibly hostile) archive; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["the output directory contains no symbolic links"],
        },
    ];
    simcore::main_with(&props)
}
