mod gen;
mod refpak;
mod scen;
use simcore::{Property, Scenario};

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

const REAL: &[&str] = &[
    "unreal_pak (PakWriter, PakReader, PakMemory, index, header, entry, compression)",
    "unreal_helpers read/write extensions",
    "std BufReader/BufWriter between library and disk",
    "zlib",
];
const STUB: &[&str] = &[
    "disk: simcore::stream::SimFile (in-memory, seeded faults)",
    "getrandom: seeded",
    "allocator: single allocations over 256 MiB fail",
];

fn main() {
    simcore::driver::IN_MEMORY.store(true, std::sync::atomic::Ordering::Relaxed);
    let props = [
        Property {
            id: "P01",
            level: "exploration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[
                Scenario { name: "roundtrip_writer", weight: 3, run: scen::roundtrip_writer },
                Scenario { name: "roundtrip_memory", weight: 2, run: scen::roundtrip_memory },
            ],
            rule: "one evaluation = one entry compared after a finished archive was read back; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["pak versions 2..7, 8B and 9 (the ones the writer supports)", "entry and mount names shorter than the reader's 131072-unit string limit"],
        },
        Property {
            id: "P02",
            level: "fault_enumeration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[
                Scenario { name: "write_faults", weight: 3, run: scen::write_faults },
                Scenario { name: "write_faults_memory", weight: 1, run: scen::write_faults_memory },
            ],
            rule: "one evaluation = one write history judged (failed, or read back exactly); distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["a failed write call transfers nothing (POSIX: a partial transfer is reported as a short count)"],
        },
        Property {
            id: "P03",
            level: "fault_enumeration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[
                Scenario { name: "crash_truncate", weight: 2, run: scen::crash_truncate },
                Scenario { name: "crash_during_write", weight: 1, run: scen::crash_during_write },
            ],
            rule: "one evaluation = one crash state opened and judged; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["entry data does not itself embed the pak magic", "a crash leaves a prefix of the bytes written"],
        },
        Property {
            id: "P04",
            level: "fault_enumeration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[Scenario { name: "failed_entry_isolated", weight: 1, run: scen::failed_entry_isolated }],
            rule: "one evaluation = one entry compared after failures and retries; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["a failed write call transfers nothing"],
        },
        Property {
            id: "P05",
            level: "fault_enumeration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[Scenario { name: "read_faults", weight: 1, run: scen::read_faults }],
            rule: "one evaluation = one read judged; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &[],
        },
        Property {
            id: "P06",
            level: "fault_enumeration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[Scenario { name: "corruption", weight: 1, run: scen::corruption }],
            rule: "one evaluation = one corrupted image opened and read; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["a single allocation over 256 MiB for archives below 1 MiB counts as unbounded"],
        },
        Property {
            id: "P07",
            level: "exploration",
            quick_runs: 80_000,
            thorough_runs: 2_000_000,
            scenarios: &[Scenario { name: "foreign", weight: 1, run: scen::foreign }],
            rule: "one evaluation = one entry of an independently encoded archive compared; distinct = distinct event-log digests",
            real: REAL,
            stub: STUB,
            assumptions: &["the reference writer encodes the engine's layout of versions 1..11 (8A and 8B)", "unencrypted archives using zlib or no compression"],
        },
    ];
    simcore::main_with(&props)
}
