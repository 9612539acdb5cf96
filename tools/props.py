SETUP = "bash setup.sh"
HOOKS = None
NOTES = "All checks share simcore (choice-stream kernel, simulated disk, minimiser, replay). Each check rebuilds its harness crate against /repo's working tree."
SIM = "deterministic simulation with fault injection: seeded search over simulated runs, "
def q(over, text): return {"over": over, "text": text}
def a(files, mech, **kw):
    d = {"files": files, "mechanism": mech}; d.update(kw); return d
PROPS = []
def P(**kw): PROPS.append(kw)

PAK = ["unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakmemory.rs", "unreal_pak/src/pakreader.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/header.rs", "unreal_pak/src/index.rs", "unreal_pak/src/compression.rs", "unreal_helpers/src/read_ext.rs", "unreal_helpers/src/write_ext.rs"]

P(id="P01", title="A finished pak returns exactly the entries written into it",
  statement="For every writable pak version (2-7, 8B, 9), block size, compression choice, entry set and mount point, and however the underlying stream splits or interrupts transfers, an archive finished by the incremental writer or by the in-memory archive lists exactly the written names and mount point and returns every entry byte for byte through every read path. Writing a name twice with the incremental writer is refused and changes nothing; setting or loading a name again in memory keeps the last value. The bytes on disk follow the engine's layout: sizes, offsets, hashes and block tables describe the stored data.",
  quantifier=q(["inputs", "histories", "configurations", "fault_sequences"], "all write histories x versions x block sizes x compression flags x short-transfer/EINTR patterns of the reader and writer"),
  why_tests_cant="The repository has no pak test at all; a test would fix one archive and one well-behaved stream, while the failure needs a particular size relative to the block size, version and transfer pattern.",
  anchors=a(PAK, "entry header/blocks written before data, index+footer at finish, headers re-read in place on read"),
  crate="sim-pak", level="exploration", technique=SIM + "simulated disk with short/interrupted transfers, reference map model plus independent format decoder",
  level_note="seeded sampling of write/read histories over the simulated disk; no exhaustiveness claimed")
P(id="P02", title="A pak write that lost data is never reported as success",
  statement="If any write, seek or flush of the underlying stream fails, returns zero, or the disk fills up at any point of building a pak - including bytes still held in the caller's buffered writer at the end - then either some call reports an error or the finished file is complete: whenever the final call reports success, all acknowledged entries and no others are readable byte for byte. With no stream failure no call reports an I/O error.",
  quantifier=q(["fault_sequences", "histories", "inputs"], "every position of one or more stream faults in every write history, buffered or not"),
  why_tests_cant="Needs a failing stream at a chosen call; no test uses one, and the number of fault positions grows with every write.",
  anchors=a(PAK, "io::Result propagation through header/data/index/footer writes and the final flush"),
  crate="sim-pak", level="fault_enumeration", technique=SIM + "EIO/ENOSPC/zero-write/device-death injected at seeded calls, success judged by reading back",
  level_note="fault positions are drawn over the calls a dry run makes (biased to index/footer/final flush), not exhaustively enumerated per history")
P(id="P03", title="A torn pak is rejected or read exactly, never read wrong",
  statement="If writing a pak is cut off by a crash at any byte, or a finished pak loses any number of trailing bytes, then opening what is left either fails or every entry it still serves is byte-identical to what was written under that name. It never lists unknown names, never returns other bytes, and never panics; a failed open leaves no entries behind. (Entry data that itself embeds a pak trailer is out of scope.)",
  quantifier=q(["crash_points", "inputs", "configurations"], "all truncation points / crash points x archives x versions"),
  why_tests_cant="The failing cut is one specific length per version (for example one that makes the footer look like an older version's); sampling a few cuts by hand misses it.",
  anchors=a(["unreal_pak/src/index.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/header.rs"], "footer located by magic at version-specific distances from the end, index behind it, headers re-read in place"),
  crate="sim-pak", level="fault_enumeration", technique=SIM + "crash inside write calls and prefix truncation, survivors judged against the model",
  level_note="cuts are sampled with bias to the last 0x120 bytes and to version-specific footer sizes")
P(id="P04", title="A failed entry write harms no other entry and can be retried",
  statement="If writing one pak entry fails because of a transient stream error, that entry is not listed, retrying it is not refused as a duplicate, and all entries acknowledged before and after it are still read back byte for byte once the archive is finished on the recovered stream. Finishing on a healthy stream succeeds whatever failed before.",
  quantifier=q(["fault_sequences", "histories"], "all positions of transient faults within entry writes x retry/abandon decisions"),
  why_tests_cant="Requires an error in the middle of an entry followed by more writes on the same writer; no test has a failing stream.",
  anchors=a(["unreal_pak/src/pakwriter.rs", "unreal_pak/src/entry.rs"], "name registered only after the entry was written; offset taken from the stream position"),
  crate="sim-pak", level="fault_enumeration", technique=SIM + "transient faults inside entry writes with retries, reference map model",
  level_note="sampled fault positions and retry decisions")
P(id="P05", title="A read error surfaces as an error and later reads are unaffected",
  statement="When a read or seek of the underlying stream fails or ends early at any point, opening a pak, reading an entry or iterating returns an error for exactly that operation and never wrong or partial data; iteration still yields every entry exactly once in order. The same reader serves every entry correctly as soon as the stream works again, and no operation fails without a stream failure.",
  quantifier=q(["fault_sequences", "histories"], "all positions of read/seek faults in sessions of open, random reads and iteration"),
  why_tests_cant="No test has a failing source; the property ranges over fault positions and subsequent operations on the same reader.",
  anchors=a(["unreal_pak/src/pakreader.rs", "unreal_pak/src/pakmemory.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/index.rs"], "each read seeks absolutely and re-reads the header; index is installed only after it was read completely"),
  crate="sim-pak", level="fault_enumeration", technique=SIM + "read/seek errors and early EOF at seeded calls, per-operation oracle and recovery check",
  level_note="sampled fault positions")
P(id="P06", title="A corrupted pak is answered with an error, not a panic or memory bomb",
  statement="However bytes of a stored pak are damaged, opening it, reading its entries and loading it into memory terminate with a result: they never panic, never abort the process and never request memory out of proportion to the file.",
  quantifier=q(["fault_sequences", "inputs"], "all byte corruptions of all archives"),
  why_tests_cant="Only specific fields and values (lengths, counts, offsets) trigger it; no test reads a damaged archive.",
  anchors=a(["unreal_pak/src/header.rs", "unreal_pak/src/index.rs", "unreal_pak/src/entry.rs", "unreal_helpers/src/read_ext.rs"], "lengths, counts and offsets taken from the file"),
  crate="sim-pak", level="fault_enumeration", technique=SIM + "storage corruption (flipped/torn fields), crash-contained worker processes and bounded allocator",
  level_note="sampled corruption, biased to footer, index and headers")
P(id="P07", title="Paks laid out by the engine are read correctly in every version",
  statement="Archives laid out according to the engine's format by an independent encoder - versions 1 to 11 including both flavours of 8, any block size, gaps between records, 32- or 64-bit encoded indexes, zlib in any compression slot - are listed and read back exactly through every read path, however the stream splits or interrupts transfers.",
  quantifier=q(["inputs", "configurations", "fault_sequences"], "all archives of the format x transfer patterns"),
  why_tests_cant="No pak fixture is checked in; each version's index layout needs its own archives.",
  anchors=a(["unreal_pak/src/index.rs", "unreal_pak/src/header.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/compression.rs"], "version-dependent footer, index and header decoding"),
  crate="sim-pak", level="exploration", technique=SIM + "independent reference encoder, simulated disk with short/interrupted transfers",
  level_note="seeded sampling; trusts the reference encoder")

CLI = ["unreal_pak_cli/src/main.rs"]
P(id="C01", title="unreal_pak_cli create followed by extract reproduces the directory",
  statement="For every tree of regular files, however the paths are spelled on the command line, whatever order the operating system lists directories in and however it splits or interrupts reads and writes: create packs every file exactly once under its path relative to the input directory, check and check-header accept the result, and extract writes exactly the same files with the same bytes into the requested (or default) directory. Input files and the archive itself are never modified by these commands.",
  quantifier=q(["inputs", "configurations", "fault_sequences"], "all file trees x argument spellings x directory orders x short/interrupted transfers"),
  why_tests_cant="The tool has no tests; the property ranges over trees, argument forms and OS behaviour.",
  anchors=a(CLI + PAK, "WalkDir traversal, path-to-entry-name mapping, PakWriter/PakReader"),
  crate="sim-cli", level="exploration", technique=SIM + "real binary under an OS seam (LD_PRELOAD) with seeded directory order and short/EINTR transfers; tree model and independent pak decoder",
  level_note="seeded sampling of trees and schedules of benign OS behaviour")
P(id="C02", title="unreal_pak_cli exits 0 only if the whole job was done",
  statement="Whatever system call fails while unreal_pak_cli runs - open, read, write, seek, mkdir, directory listing, disk full - the tool exits with 0 only if its output is complete and correct (create: the archive holds the whole tree; extract: the whole tree was written; check: every entry could be read); otherwise it exits with a non-zero status. Without a failure it never reports one, it never dies from a signal, and running the same command again on a healthy system succeeds completely.",
  quantifier=q(["fault_sequences", "inputs"], "every position and kind of system call failure in every run"),
  why_tests_cant="Needs a system call to fail at a chosen moment in a real process; no test does that.",
  anchors=a(CLI + PAK, "every io::Result is checked and turned into exit(1) or a panic"),
  crate="sim-cli", level="fault_enumeration", technique=SIM + "real binary under an OS seam (LD_PRELOAD): EIO/EACCES/EMFILE/ENOSPC/early EOF at seeded system calls, exit status judged against the output",
  level_note="fault positions sampled over the calls of a dry run, biased to the last calls and to each kind of call")
P(id="C03", title="A crash of unreal_pak_cli never leaves silently wrong data",
  statement="If the tool is killed at any system call (including in the middle of a write), an archive left behind by create is either rejected by check and extract or holds exactly the old or the new tree, and files left behind by extract are prefixes of archive entries under their own names. The source archive is never damaged by extract, and re-running the command completes correctly over the leftovers.",
  quantifier=q(["crash_points", "inputs", "histories"], "every crash point in create and extract, repeated crashes, followed by re-runs"),
  why_tests_cant="Needs a process death at a chosen system call and a restart on the surviving files.",
  anchors=a(CLI + PAK, "footer is written last; create truncates before appending; extract rewrites every file from scratch"),
  crate="sim-cli", level="fault_enumeration", technique=SIM + "real binary killed at seeded system calls (torn writes), survivors judged by check/extract and by re-running",
  level_note="process-crash semantics: completed system calls survive; sampled crash points")
P(id="C04", title="unreal_pak_cli extract never touches anything outside its output directory",
  statement="Whatever entry names an archive contains - parent references, absolute paths, redundant separators, in any position and combined with I/O failures - extracting it creates, modifies and deletes nothing outside the output directory; harmless archives are extracted completely.",
  quantifier=q(["inputs", "fault_sequences"], "all archives including hostile ones x output locations x failures"),
  why_tests_cant="Quantifies over all entry names an attacker may choose; no test extracts an archive.",
  anchors=a(CLI, "entry names are checked component-wise before they are joined to the output folder"),
  crate="sim-cli", level="fault_enumeration", technique=SIM + "real binary under an OS seam that refuses and records any mutation outside the root; file-system snapshot comparison",
  level_note="hostile names sampled from a grammar; output directory contains no symbolic links")

ASSET = ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/src/asset_archive_writer.rs", "unreal_asset/unreal_asset_base/src/reader", "unreal_asset/unreal_asset_base/src/containers", "unreal_asset/unreal_asset_properties/src", "unreal_asset/unreal_asset_exports/src", "unreal_asset/unreal_asset_kismet/src"]
P(id="A01", title="Loading a cooked asset and saving it reproduces it byte for byte",
  statement="For every well-formed cooked asset with versioned (tagged) properties of the supported engine versions - one file or split in .uasset/.uexp, any mix of export kinds, property kinds, bytecode, name/import/depends/preload tables - and however the source splits or interrupts reads, loading parses every export of a known kind without falling back to raw data, shows the stored names, imports, exports and property values to the caller, and saving the untouched asset writes exactly the bytes that were read.",
  quantifier=q(["inputs", "configurations", "fault_sequences"], "all well-formed assets x engine versions x transfer patterns"),
  why_tests_cant="The repository round-trips a few dozen fixtures; each version gate, optional field and property kind needs its own combination, and no fixture has a source that returns short reads.",
  anchors=a(ASSET, "summary/name/import/export tables parsed by offset, exports parsed by class, offsets and sizes recomputed on save"),
  crate="sim-asset", level="exploration", technique=SIM + "independent reference encoder of whole assets, simulated disk with short/interrupted transfers, byte comparison after load/save",
  level_note="seeded sampling of generated assets; trusts the reference encoder; unversioned (usmap) properties are excluded")
P(id="A02", title="After any history of edits the saved asset is the edited asset",
  statement="For every history of edits through the public API - changing, adding and removing properties, exports, imports, rows and names, saving and reloading in between - the saved file is exactly what the engine's format prescribes for the edited content: all tables, counts, offsets and sizes follow the edit, names added at any point are in the saved name table, and content which was not edited keeps its bytes. Saving does not change the asset: saving again gives the same bytes, and looking up names, imports and exports always finds what the edits left.",
  quantifier=q(["histories", "inputs", "fault_sequences"], "all edit/save/reload histories over generated assets x transfer patterns of the destination"),
  why_tests_cant="Edit sequences compose (an added name shifts offsets of every later table; a removal reorders a map); the tests make a handful of single edits.",
  anchors=a(ASSET, "name map shared by all FNames, sizes measured while writing, header rewritten after the exports"),
  crate="sim-asset", level="exploration", technique=SIM + "seeded edit/save/reload histories run against an executable model of the asset whose encoding is the expected file",
  level_note="seeded sampling of histories")
P(id="A03", title="A read error while loading an asset is reported, never hidden",
  statement="If a read or seek of the .uasset or .uexp source fails with an I/O error at any point of loading, Asset::new returns an error or the loaded asset is complete and correct: an export is never silently replaced by raw or partial data because the source failed, and loading again from the recovered source succeeds. A chained .uasset/.uexp pair behaves exactly like one concatenated file for every history of reads and seeks, including refused seeks and failing halves; without a failure nothing fails.",
  quantifier=q(["fault_sequences", "histories", "inputs"], "every position of read/seek faults x assets x read/seek histories of the chained pair"),
  why_tests_cant="Needs a source that fails at a chosen call; the tests read from memory.",
  anchors=a(["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/unreal_asset_base/src/containers/chain.rs", "unreal_asset/unreal_asset_base/src/reader"], "parse errors fall back to RawExport, I/O failures do not; Chain maps positions to its two halves"),
  crate="sim-asset", level="fault_enumeration", technique=SIM + "EIO/EINTR/short reads/device death at seeded calls of load, result compared with the model; chained reads compared with the concatenated file",
  level_note="fault positions sampled over the calls of a dry run")
P(id="A04", title="An asset save which lost data is never reported as success",
  statement="If any write, seek or flush of the .uasset or .uexp destination fails, is torn, returns zero or runs out of space while saving, write_data returns an error, or both files are complete and byte-exact; without a failure it succeeds. A failed save leaves the loaded asset unchanged: saving it again on a healthy destination - fresh files or over the leftovers - writes exactly the right bytes.",
  quantifier=q(["fault_sequences", "inputs", "histories"], "every position and kind of destination fault x assets"),
  why_tests_cant="Needs a destination that fails at a chosen call; the tests write to memory.",
  anchors=a(["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/reader/raw_writer.rs", "unreal_asset/unreal_asset_exports/src"], "io::Result propagation; exports are written to a buffer first, then header and data are copied out"),
  crate="sim-asset", level="fault_enumeration", technique=SIM + "EIO/ENOSPC/torn/zero writes/device death at seeded calls of save, success judged against the reference encoding, retry on the recovered disk",
  level_note="fault positions sampled over the calls of a dry run")
P(id="A05", title="A damaged asset is answered with a result, not a panic or memory bomb",
  statement="However a stored asset is cut off or its bytes are damaged, loading it (without mappings) and saving whatever it was loaded as terminate with a result: they never panic, exhaust the (8 MiB) stack, hang, or request memory out of proportion to the file.",
  quantifier=q(["fault_sequences", "inputs"], "all truncations and byte damage of all assets"),
  why_tests_cant="Only specific fields and values (counts, lengths, offsets, indices) trigger it; the tests load intact fixtures.",
  anchors=a(ASSET, "counts, lengths, offsets and indices taken from the file"),
  crate="sim-asset", level="fault_enumeration", technique=SIM + "storage corruption (cuts, flipped bytes, lost sectors, overwritten fields), crash-contained worker processes and bounded allocator",
  level_note="sampled damage, biased to the tables at the start and to extreme integers")
REG = ["unreal_asset/unreal_asset_registry/src/lib.rs", "unreal_asset/unreal_asset_registry/src/name_table_reader.rs", "unreal_asset/unreal_asset_registry/src/name_table_writer.rs", "unreal_asset/unreal_asset_registry/src/objects/asset_data.rs", "unreal_asset/unreal_asset_registry/src/objects/depends_node.rs", "unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs"]
P(id="A06", title="An asset registry is read exactly and saved back unchanged",
  statement="For every asset registry of the versions that can be read (RemovedMD5Hash to AddedDependencyFlags with their name table, later ones with the names supplied by the caller) and however the file splits or interrupts reads, loading shows exactly the stored assets, tags, dependency nodes and package data, and saving it unedited reproduces the file (dependencies with flags in the order hard before soft, then by node). After any history of edits through the public fields, every save is the encoding of exactly the edited registry and can be loaded again.",
  quantifier=q(["inputs", "histories", "configurations", "fault_sequences"], "all registries x versions x edit histories x transfer patterns"),
  why_tests_cant="The repository has no registry test or fixture at all; each version has its own layout and the section offsets depend on everything written before.",
  anchors=a(REG, "name table at the end found through an offset, version dependent sections, dependency flags in bit sets"),
  crate="sim-asset", level="exploration", technique=SIM + "independent reference encoder and model, simulated disk with short/interrupted transfers, edit histories",
  level_note="seeded sampling of registries and edits")
P(id="A07", title="A failing or damaged asset registry is reported, never misread",
  statement="When a read or seek fails at any point while an asset registry is loaded, loading reports an error or yields exactly the stored registry; without a failure it reports none. However the stored bytes are damaged, loading and re-saving terminate with a result and never panic, hang or request memory out of proportion to the file.",
  quantifier=q(["fault_sequences", "inputs"], "all positions of read faults and all byte damage of all registries"),
  why_tests_cant="No test has a failing or damaged registry; specific fields (counts, section sizes, node indices) trigger it.",
  anchors=a(REG, "counts, offsets and indices taken from the file; io errors propagated through the nested readers"),
  crate="sim-asset", level="fault_enumeration", technique=SIM + "read/seek errors at seeded calls and storage corruption, crash-contained workers and bounded allocator",
  level_note="sampled fault positions and damage")
USM = ["unreal_asset/unreal_asset_base/src/unversioned/mod.rs", "unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs", "unreal_asset/unreal_asset_base/src/unversioned/properties"]
P(id="A08", title="A mappings file is parsed exactly or reported, never misread",
  statement="For every mappings (.usmap) file in the layout the parser defines - with or without versions, uncompressed, brotli or zstandard, with or without module paths - and however reads are split or interrupted, parsing yields exactly the stored versions, names, enums, schemas and (nested, array) property types, and a class has its own and its ancestors' properties. When a read fails it reports an error or yields exactly that; however the file is damaged, parsing and listing properties terminate with a result and never panic, hang, exhaust the stack or request memory out of proportion to the file.",
  quantifier=q(["inputs", "configurations", "fault_sequences"], "all mappings files x transfer patterns, read faults and damage"),
  why_tests_cant="The repository has neither a mappings fixture nor a test; lengths, counts, indices and super types of damaged files and failing reads need to be generated.",
  anchors=a(USM, "header, then one (compressed) block with names, enums, schemas and extensions, all referring to names by index"),
  crate="sim-asset", level="exploration", technique=SIM + "independent reference encoder, simulated disk with short/interrupted/failing reads, storage corruption, crash-contained workers and bounded allocator",
  level_note="seeded sampling; use of the mappings for unversioned properties is excluded (N01)")

MMB = "unreal_mod_manager/src/background_work.rs"
MMC = "unreal_mod_manager/src/mod_config.rs"
MMA = "unreal_mod_manager/src/app.rs"
MML = "unreal_mod_manager/src/lib.rs"
MMD = "unreal_mod_manager/src/mod_processing/dependencies.rs"
MMI = "unreal_mod_manager/src/mod_processing/index_file.rs"
MMP = "unreal_mod_manager/src/mod_processing/pakfile_reading.rs"
MMV = "unreal_mod_manager/src/mod_processing/version_handling.rs"
MMF = "unreal_mod_manager/src/mod_processing/verify.rs"
INT = "unreal_mod_integrator/src/lib.rs"
INTH = "unreal_mod_integrator/src/helpers.rs"
GH = "github_helpers/src/lib.rs"
MMSIM = SIM + "the whole mod manager (GUI code, background and download threads, disk, servers, clock) under a seeded scheduler with a seeded user, file/network faults and process crashes over several lives; "
MMNOTE = "seeded sampling of schedules, user actions and faults; egui, reqwest and the game platforms are simulated; cpp_loader feature off"
P(id="I01", title="Integration yields a complete, correct integrator pak or an error",
  statement="For every set of mods and game paks, integrate_mods either returns an error or leaves in the target directory every built-in mod and a readable integrator pak which lists exactly the given mods, once and in the given order, with their metadata, the settings passed by the caller and the handlers' changes; this holds when any file operation on the way fails. Without a failure and with well-formed input it succeeds, and damaged mods are errors, never panics.",
  quantifier=q(["inputs", "fault_sequences"], "all mod sets and game paks x failing file operations"),
  why_tests_cant="The repository has no test of the integrator at all; a failing open, read or write in the middle needs fault injection.",
  anchors=a([INT, INTH, "unreal_mod_metadata/src/lib.rs"], "mods are read through PakReader, the list and the settings are baked into assets of the integrator pak, which is written last"),
  crate="sim-integ", level="exploration", technique=SIM + "real integrator on a simulated file system with seeded faults; independent reference pak reader and asset model as oracle",
  level_note="seeded sampling; the integrator's own assets are made by the reference encoder")
P(id="I02", title="Persistent actors are placed once and complete in every map mods name",
  statement="For every set of mods that name persistent actors and maps, a successful integrate_mods puts each named map (a mod's copy before the game's) into the integrator pak with everything it contained plus, for each persistent actor any of the mods names, exactly one actor of its class in the level's actor list with one correctly classed component per node of its construction script, attached as there. A missing, damaged or unreadable map or actor is an error, never a panic or a half-changed map.",
  quantifier=q(["inputs", "fault_sequences"], "all mod sets, maps and construction scripts x failing file operations and damage"),
  why_tests_cant="The repository has no test of the integrator; maps, actors and construction scripts of any shape and failing reads need to be generated.",
  anchors=a(["unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs", "unreal_mod_integrator/src/helpers.rs", INT], "the construction script of the actor's blueprint is read and copied as component exports into a copy of the map"),
  crate="sim-integ", level="exploration", technique=SIM + "real integrator on a simulated file system with seeded faults and damage; maps and actors made by the reference encoder, resulting maps judged structurally",
  level_note="seeded sampling of mod sets, maps and construction scripts")
P(id="G01", title="A GitHub download is complete or an error",
  statement="Whatever the server and network do - error statuses, connections lost at any byte, timeouts, bad redirects or malformed answers - fetching a release or an asset returns exactly what the server holds or an error, and never panics.",
  quantifier=q(["fault_sequences", "inputs"], "all server answers and network failures"),
  why_tests_cant="Needs servers and networks that fail at chosen points; there is no network in the tests.",
  anchors=a([GH], "status codes and body errors of reqwest are turned into errors"),
  crate="sim-integ", level="fault_enumeration", technique=SIM + "real client code against simulated servers with seeded network faults",
  level_note="reqwest itself is simulated")
P(id="M01", title="The mod manager's configuration is never torn, lost or reset",
  statement="At every moment, and so after a crash at any point or any failing file operation, modconfig.json is a complete configuration once it was one: it is never removed, truncated or half written. Settings the user did not change (platform, refusal of mismatched connections, profiles, trusted mods) are never replaced by defaults, also not when the configuration could not be read or the user acts while it is being loaded.",
  quantifier=q(["crash_points", "fault_sequences", "schedules", "histories"], "all crash points, file failures, schedules and user actions over several lives"),
  why_tests_cant="Needs a crash or failure at a particular write and races between GUI and background thread; the mod manager has no tests.",
  anchors=a([MMC, MML, MMB], "the configuration is written to a temporary file and renamed, and only after it was read"),
  crate="sim-mm", level="exploration", technique=MMSIM + "the file is judged after every file operation",
  level_note=MMNOTE)
P(id="M02", title="Settings and mods survive a restart of the mod manager",
  statement="After the window was closed regularly, the next start shows the same mods, enabled states, selected versions (a fixed version stays that version, latest stays latest), profiles, platform and refusal setting, whatever the user did in whatever order and whether or not integrating succeeded. Only a mod that turns out to be required by another one may be enabled additionally.",
  quantifier=q(["histories", "schedules", "fault_sequences"], "all user histories and schedules, failures before the restart"),
  why_tests_cant="Depends on when settings are saved relative to what the user does and on failing integrations; the mod manager has no tests.",
  anchors=a([MMC, MMB, "unreal_mod_manager/src/profile.rs"], "settings are saved after integrations, on changes of profiles and on exit"),
  crate="sim-mm", level="exploration", technique=MMSIM + "what is shown before closing is compared with what is shown after the next start",
  level_note=MMNOTE)
P(id="M03", title="The mod manager never panics, hangs or refuses to close",
  statement="Whatever mods, index files, configurations, file and network failures it meets and whatever the user does in whatever interleaving with the background thread, the mod manager never panics or deadlocks, comes to rest within bounded time once the failures stop, and closing the window ends it within bounded time, also after a failed startup or update.",
  quantifier=q(["schedules", "fault_sequences", "inputs", "histories"], "all schedules, failures, mods, index files and user actions"),
  why_tests_cant="Panics and hangs need odd files, failing servers or a particular interleaving; the mod manager has no tests.",
  anchors=a([MMB, MMA, MMP, MMI, MMV, MMD], "background thread with a message queue, errors become warnings shown to the user"),
  crate="sim-mm", level="exploration", technique=MMSIM + "panics, deadlocks and bounded progress are judged",
  level_note=MMNOTE + "; bounds: 4000 frames and 3 million steps")
P(id="M04", title="The Paks directory contains exactly the enabled mods, integrated",
  statement="Whenever the mod manager is at rest without a warning, the Paks directory of the selected platform contains exactly the enabled mods in their selected versions, unchanged, the required built-in mods and an integrator pak which lists exactly these (by ascending priority) and the current settings; it is empty if no mod is enabled. With healthy mods, servers and disk there is no warning.",
  quantifier=q(["histories", "schedules", "fault_sequences"], "all user histories, interleavings with the background thread and earlier failures"),
  why_tests_cant="An integration may be skipped or use outdated state in particular interleavings of user actions and background work only.",
  anchors=a([MMB, MMV, MMI, INT], "integrations are queued, outdated ones are skipped, the directory is rebuilt from scratch"),
  crate="sim-mm", level="exploration", technique=MMSIM + "the directory is compared with what is shown, before and after further integrations",
  level_note=MMNOTE)
P(id="M05", title="Mod files are complete under their names and stay in their directories",
  statement="At every moment, and so after a crash at any point, every mod file in the Mods directory has exactly the content some source (server, dropped file) provides under its name, never part of it or an error page; a failing download or import does not damage a file that was there. Whatever names index files contain, nothing outside the Mods and Paks directories is created, changed or removed.",
  quantifier=q(["crash_points", "fault_sequences", "inputs", "schedules"], "all crash points, network and file failures, and index files"),
  why_tests_cant="Needs crashes and failures in the middle of a transfer or hostile index files; the mod manager has no tests.",
  anchors=a([MMB, MMF, MMI], "downloads and imports go to a temporary file which is renamed; file names are verified"),
  crate="sim-mm", level="exploration", technique=MMSIM + "mod files and affected paths are judged after every file operation",
  level_note=MMNOTE)
P(id="M06", title="Dependencies of enabled mods are satisfied or reported",
  statement="Whenever the mod manager is at rest after an integration without a warning, every dependency of every enabled mod is satisfied by an enabled mod or a built-in one whose version matches the requirement. Dependencies that are missing, cyclic, unavailable or contradictory are reported and never keep it from coming to rest. With healthy mods, servers and disk, dependencies for which the given index files offer suitable versions are satisfied without a warning.",
  quantifier=q(["inputs", "histories", "fault_sequences"], "all dependency graphs, index files, versions and download failures"),
  why_tests_cant="Depends on the whole graph, the versions on the servers and the order in which they are found.",
  anchors=a([MMD, MMB, MMI], "dependencies are collected round by round, the graph intersects the requirements and picks versions"),
  crate="sim-mm", level="exploration", technique=MMSIM + "requirements in the installed metadata are judged against what is enabled",
  level_note=MMNOTE)
P(id="M07", title="Imported mods are installed and removed mods are gone",
  statement="When the mod manager is at rest and no failure or warning occurred, every mod whose files were dropped onto the window is listed and its files are in the Mods directory with the content of the last drop, and every mod that was removed last (and is not required by others) is neither listed nor in the Mods directory.",
  quantifier=q(["histories", "schedules"], "all histories of drops, removals and other actions and their interleavings with the background thread"),
  why_tests_cant="Messages of the user race with integrations and downloads that read and add mods.",
  anchors=a([MMB, MMP, MMA], "imports and removals are queued to the background thread, which copies or deletes files and updates the list"),
  crate="sim-mm", level="exploration", technique=MMSIM + "the list and the Mods directory are compared with the user's history",
  level_note=MMNOTE)
P(id="M08", title="The game never starts with untrusted or unintegrated mods",
  statement="Whenever the game is started, every mod in the Paks directory is a complete pak, every one with loader DLLs has been trusted by the user in exactly this content, and if mods are installed there is a complete integrator pak - whatever failed before and however actions, downloads and integrations interleave. Pressing Play at rest starts the game or asks for trust in mods that are not trusted yet; it is refused with a warning only if integrating failed or the game cannot be started.",
  quantifier=q(["schedules", "fault_sequences", "histories", "crash_points"], "all interleavings of Play with other actions, failures and crashes in earlier lives"),
  why_tests_cant="Needs Play to race with an integration that fails or brings in new mods; the mod manager has no tests.",
  anchors=a([MMB, MMA], "mods with DLLs are hashed and compared with the trusted hashes; launching is a message to the background thread"),
  crate="sim-mm", level="exploration", technique=MMSIM + "the Paks directory is judged at the moment of each start",
  level_note=MMNOTE)

# --- not applicable -------------------------------------------------------
P(id="N01", title="Assets with unversioned properties round-trip with their mappings",
  statement="For every asset cooked with unversioned properties and its mappings, loading and saving reproduces the file.",
  quantifier=q(["inputs"], "all assets with unversioned properties"),
  why_tests_cant="The repository has no such fixture.",
  anchors=a(["unreal_asset/unreal_asset_base/src/unversioned/header.rs", "unreal_asset/unreal_asset_properties/src/lib.rs"], "fragment header and mappings look-ups"),
  na="Experimental code which does not work at this commit (properties are stored under their schema index but looked up by duplication index, the fragment loop is inverted), a pure function of its input without I/O, time or schedule beyond what A01/A05/A08 simulate, and nothing in the repository pins the format an oracle could use.")
P(id="N02", title="DLLs of mods are loaded into exactly the game that was started",
  statement="The C++ loader injects exactly the DLLs of the enabled mods into exactly the process of the game that the mod manager started.",
  quantifier=q(["schedules", "fault_sequences"], "all schedules of game start and injection"),
  why_tests_cant="Needs Windows processes.",
  anchors=a(["dll_injector/src/lib.rs", "unreal_cpp_bootstrapper/src/lib.rs", "unreal_mod_manager/src/background_work.rs"], "Windows process and thread APIs"),
  na="Windows-only code on raw process, thread and memory APIs: it neither compiles nor runs in this sandbox, and a stand-in for the whole Windows API would decide nothing about it.")
P(id="N03", title="Mod metadata of both schema versions means the same mod",
  statement="Metadata of schema version 1 and 2 which describes the same mod is parsed into equal metadata, and invalid metadata is an error.",
  quantifier=q(["inputs"], "all metadata documents"),
  why_tests_cant="Needs all documents.",
  anchors=a(["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v1.rs", "unreal_mod_metadata/src/v2.rs"], "serde"),
  na="A pure function of one JSON document: no concurrency, time, I/O or other party a simulator could control (its use under faults is part of I01 and M01-M08).")
P(id="N04", title="Checksums, guids, paths and AC7 decryption compute their definitions",
  statement="CRC/CityHash of names, guid formatting, conversion of game paths and the Ace Combat 7 cipher compute what the engine defines for every input.",
  quantifier=q(["inputs"], "all inputs"),
  why_tests_cant="Needs all inputs.",
  anchors=a(["unreal_asset/unreal_asset_base/src/crc.rs", "unreal_helpers/src/guid.rs", "unreal_helpers/src/path.rs", "unreal_asset/src/ac7.rs"], "pure functions"),
  na="Pure functions without state, I/O, time or schedule; the hashes saved into name tables are compared by A01/A02, the rest is not simulation's business.")
P(id="N05", title="The game installation of each platform is found",
  statement="On every machine the managers of Steam, Microsoft Store and Proton find the installed game, its version and its directories.",
  quantifier=q(["configurations"], "all installations"),
  why_tests_cant="Needs installations.",
  anchors=a(["unreal_mod_manager/src/game_platform_managers"], "steamlocate, Windows registry, PowerShell"),
  na="Glue to third-party launchers (Steam library files through steamlocate, the Windows registry, PowerShell), none of which exists in the sandbox; M01-M08 replace it by simulated platforms.")
