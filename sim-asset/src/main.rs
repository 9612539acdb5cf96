mod edit;
mod fault;
mod gen;
mod kismet;
mod model;
mod registry;
mod scen;
mod usmap;
mod view;
use simcore::{Property, Scenario};

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

const REAL: &[&str] = &["unreal_asset (all sub-crates)", "unreal_helpers"];
const STUB: &[&str] = &["disk: simcore::stream::SimFile (in-memory, seeded faults)", "getrandom: seeded", "allocator: single allocations over 256 MiB fail"];

fn main() {
    simcore::driver::IN_MEMORY.store(true, std::sync::atomic::Ordering::Relaxed);
    let props = [Property {
        id: "A01",
        level: "exploration",
        quick_runs: 400000,
        thorough_runs: 6000000,
        scenarios: &[Scenario { name: "roundtrip_generated", weight: 1, run: scen::roundtrip_generated }],
        rule: "one evaluation = one generated asset loaded, viewed, saved and compared byte for byte; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["asset layout as written by the reference encoder (UE 4.0-5.2, versioned tagged properties, no unversioned/usmap properties, no inline bulk data sections)", "struct/array flags limited to the values the engine uses"],
    },
    Property {
        id: "A02",
        level: "exploration",
        quick_runs: 250000,
        thorough_runs: 3000000,
        scenarios: &[Scenario { name: "edit_history", weight: 1, run: edit::edit_history }],
        rule: "one evaluation = one save of an edited asset compared with the reference encoding of the edited model; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["edits through public fields and documented calls", "every name occurs once in the name table", "entries of maps and string tables are removed by key"],
    },
    Property {
        id: "A03",
        level: "fault_enumeration",
        quick_runs: 400000,
        thorough_runs: 6000000,
        scenarios: &[Scenario { name: "read_faults", weight: 4, run: fault::read_faults }, Scenario { name: "chain_history", weight: 1, run: fault::chain_history }],
        rule: "one evaluation = one load (or chained read/seek) judged; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["a read error is an I/O error other than end-of-file or interruption"],
    },
    Property {
        id: "A04",
        level: "fault_enumeration",
        quick_runs: 300000,
        thorough_runs: 5000000,
        scenarios: &[Scenario { name: "write_faults", weight: 1, run: fault::write_faults }],
        rule: "one evaluation = one save judged; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["a failed write call transfers nothing"],
    },
    Property {
        id: "A05",
        level: "fault_enumeration",
        quick_runs: 250000,
        thorough_runs: 6000000,
        scenarios: &[Scenario { name: "damaged", weight: 1, run: fault::damaged }],
        rule: "one evaluation = one damaged pair of files loaded and, if accepted, saved; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["no usmap mappings are supplied", "single allocations above 256 MiB count as out of proportion (files are a few KiB)"],
    },
    Property {
        id: "A06",
        level: "exploration",
        quick_runs: 400000,
        thorough_runs: 6000000,
        scenarios: &[Scenario { name: "registry_roundtrip", weight: 1, run: registry::roundtrip }],
        rule: "one evaluation = one generated (or edited) registry loaded, viewed, saved and compared byte for byte; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["registry layout as written by the reference encoder; from FixedTags on the names are supplied by the caller", "every name occurs once in the name table"],
    },
    Property {
        id: "A07",
        level: "fault_enumeration",
        quick_runs: 300000,
        thorough_runs: 5000000,
        scenarios: &[Scenario { name: "registry_faults", weight: 1, run: registry::faults }],
        rule: "one evaluation = one load of a registry under read faults, or of a damaged one; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["a read error is an I/O error other than end-of-file or interruption", "single allocations above 256 MiB count as out of proportion"],
    },
    Property {
        id: "A08",
        level: "exploration",
        quick_runs: 200000,
        thorough_runs: 4000000,
        scenarios: &[Scenario { name: "mappings", weight: 1, run: usmap::mappings }],
        rule: "one evaluation = one parse of a generated, failing or damaged mappings file; distinct = distinct event-log digests",
        real: REAL,
        stub: STUB,
        assumptions: &["layout of mappings files as the parser defines it (there is no fixture in the repository): magic 30 C4, name lengths one larger than the name, one byte per flag", "oodle is not available"],
    }];

    simcore::main_with(&props);
}
