use crate::gen;
use crate::refpak;
use simcore::driver::guard;
use simcore::stream::{Fault, SimFile};
use simcore::{Ctx, Outcome, Violation};
use std::collections::BTreeMap;
use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use unreal_pak::error::PakErrorKind;
use unreal_pak::pakversion::PakVersion;
use unreal_pak::{PakError, PakMemory, PakReader, PakWriter};

pub type Model = BTreeMap<String, Vec<u8>>;

pub fn vio(class: &str, detail: impl Into<String>) -> Violation {
    Violation::new(class, detail)
}

macro_rules! ensure {
    ($c:expr, $class:expr, $($d:tt)*) => { if !$c { return Err(vio($class, format!($($d)*))); } };
}

fn kind(e: &PakError) -> &'static str {
    match e.kind {
        PakErrorKind::IoError(_) => "io",
        PakErrorKind::DoubleWrite(_) => "double-write",
        PakErrorKind::ConfigurationInvalid => "config",
        PakErrorKind::PakInvalid => "pak-invalid",
        PakErrorKind::EntryNotFound(_) => "not-found",
        PakErrorKind::FString(_) => "fstring",
        _ => "other",
    }
}

// ---------------------------------------------------------------- I/O wrapping

/// What the caller put between the archive code and the disk.
pub enum Sink {
    Raw(SimFile),
    Buf(BufWriter<SimFile>),
}
impl Sink {
    pub fn make(f: SimFile, cap: Option<usize>) -> Self {
        match cap {
            None => Sink::Raw(f),
            Some(c) => Sink::Buf(BufWriter::with_capacity(c, f)),
        }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Sink::Raw(f) => f.write(b),
            Sink::Buf(f) => f.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self {
            Sink::Raw(f) => f.flush(),
            Sink::Buf(f) => f.flush(),
        }
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self {
            Sink::Raw(f) => f.seek(p),
            Sink::Buf(f) => f.seek(p),
        }
    }
}
pub enum Source {
    Raw(SimFile),
    Buf(BufReader<SimFile>),
}
impl Source {
    pub fn make(f: SimFile, cap: Option<usize>) -> Self {
        match cap {
            None => Source::Raw(f),
            Some(c) => Source::Buf(BufReader::with_capacity(c, f)),
        }
    }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Source::Raw(f) => f.read(b),
            Source::Buf(f) => f.read(b),
        }
    }
}
impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self {
            Source::Raw(f) => f.seek(p),
            Source::Buf(f) => f.seek(p),
        }
    }
}

fn buf_cap(ctx: &mut Ctx) -> Option<usize> {
    match ctx.draw(3) {
        0 => None,
        1 => Some(8192),
        _ => Some([1usize, 3, 16, 64, 200, 1000, 65536][ctx.draw(7) as usize]),
    }
}

// ---------------------------------------------------------------- plans

#[derive(Clone)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub compress: bool,
}

#[derive(Clone)]
pub struct WritePlan {
    pub version: PakVersion,
    pub block_size: u32,
    pub mount: Option<String>,
    pub cap: Option<usize>,
    pub prefix: usize,
    /// hole before everything (archives beyond 4 GiB)
    pub base: u64,
    pub ops: Vec<Entry>,
}

/// Sizes at which a narrower count, length or offset would overflow.
fn wide_ops(ctx: &mut Ctx, block_size: &mut u32) -> Vec<Entry> {
    let mut p = ctx.sub_prng();
    let mut ops = vec![];
    let mut tiny = |n: u64| {
        for i in 0..n {
            let len = p.below(3) as usize;
            ops.push(Entry { name: format!("w/{i}"), data: gen::fill(&mut p, len, 1), compress: false });
        }
    };
    match ctx.draw(8) {
        0..=2 => tiny(254 + ctx.draw(4)),
        3 => tiny(65_535 + ctx.draw(3)),
        4 => {
            *block_size = 1;
            let len = 65_535 + ctx.draw(3) as usize;
            ops.push(Entry { name: "blocks".into(), data: gen::fill(&mut p, len, 2), compress: true });
            ops.push(Entry { name: "after".into(), data: vec![7; 5], compress: false });
        }
        5 => {
            // one stored record above 16 MiB
            *block_size = *ctx.pick(&[0x10000, 0x100_0000, 1 << 30]);
            let len = (1 << 24) - 1 + ctx.draw(20) as usize;
            let style = *ctx.pick(&[0, 2, 3]);
            ops.push(Entry { name: "large".into(), data: gen::fill(&mut p, len, style), compress: ctx.chance(1, 3) });
            ops.push(Entry { name: "later".into(), data: vec![7; 5], compress: false });
        }
        _ => {
            let len = *ctx.pick(&[250usize, 65_530, 32_760, 120_000]) + ctx.draw(10) as usize;
            let c = *ctx.pick(&["n", "\u{e9}"]);
            ops.push(Entry { name: c.repeat(len), data: vec![1; 40], compress: true });
            ops.push(Entry { name: c.repeat(len - 1), data: vec![2; 40], compress: true });
        }
    }
    for e in &mut ops {
        gen::strip_magic(&mut e.data);
    }
    ops
}

fn hole(ctx: &mut Ctx) -> u64 {
    if ctx.chance(1, 40) {
        (1u64 << *ctx.pick(&[31, 32, 33, 40])) - ctx.draw(400)
    } else {
        0
    }
}

pub fn write_plan(ctx: &mut Ctx, max: u64) -> WritePlan {
    let version = gen::version(ctx);
    let mut block_size = gen::block_size(ctx);
    let mount = gen::mount(ctx);
    let cap = buf_cap(ctx);
    let base = if max >= 12 { hole(ctx) } else { 0 };
    let prefix = if ctx.chance(1, 10) {
        ctx.draw(600) as usize
    } else {
        0
    };
    let n = ctx.draw(max + 1);
    let mut ops = vec![];
    let mut total = 0;
    for _ in 0..n {
        let name = gen::name(ctx);
        let data = gen::payload(ctx, block_size);
        let compress = ctx.draw(3) != 0;
        total += data.len();
        if total > 600_000 {
            break;
        }
        ops.push(Entry {
            name,
            data,
            compress,
        });
    }
    if max >= 12 && ctx.chance(1, 200) {
        ops = wide_ops(ctx, &mut block_size);
        ctx.probe("wide");
    }
    ctx.event(format!(
        "plan version={:?} bs={} cap={:?} base={base} prefix={} mount={:?} ops={:?}",
        version,
        block_size,
        cap,
        prefix,
        mount,
        ops.iter()
            .take(20)
            .map(|e| (e.name.chars().take(24).collect::<String>(), e.data.len(), e.compress))
            .collect::<Vec<_>>()
    ));
    WritePlan {
        version,
        block_size,
        mount,
        cap,
        prefix,
        base,
        ops,
    }
}

pub struct WriteResult {
    pub model: Model,
    /// results of each op: None = Ok
    pub errs: Vec<Option<&'static str>>,
    pub finish: Result<(), &'static str>,
    pub finish_ops_at: u64,
}

pub fn run_write(
    plan: &WritePlan,
    file: &SimFile,
    retry: bool,
) -> Result<WriteResult, Violation> {
    let mut handle = file.reopen();
    if plan.base > 0 {
        handle.set_base(plan.base);
    }
    let mut sink = Sink::make(handle, plan.cap);
    if plan.prefix > 0 {
        // bytes some other producer already put into the stream
        let _ = sink.write_all(&vec![0x55; plan.prefix]);
        let _ = sink.flush();
    }
    let mut w = PakWriter::new(sink, plan.version);
    w.block_size = plan.block_size;
    if let Some(m) = &plan.mount {
        w.mount_point = m.clone();
    }
    let mut model = Model::new();
    let mut errs = vec![];
    for e in &plan.ops {
        let mut attempts = 0;
        loop {
            let r = guard("write_entry", || w.write_entry(&e.name, &e.data, e.compress))?;
            attempts += 1;
            match r {
                Ok(()) => {
                    if model.contains_key(&e.name) {
                        return Err(vio(
                            "duplicate-accepted",
                            format!("second write of {:?} acknowledged", e.name),
                        ));
                    }
                    model.insert(e.name.clone(), e.data.clone());
                    errs.push(None);
                    break;
                }
                Err(er) => {
                    let k = kind(&er);
                    if retry && k == "io" && attempts < 3 {
                        errs.push(Some(k));
                        continue;
                    }
                    errs.push(Some(k));
                    break;
                }
            }
        }
    }
    let names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
    let want: Vec<String> = model.keys().cloned().collect();
    if names != want {
        return Err(vio(
            "writer-names",
            format!("get_entry_names {names:?}, acknowledged {want:?}"),
        ));
    }
    let finish_ops_at = file.ops();
    let finish = guard("finish_write", move || {
        let r = w.finish_write();
        r
    })?
    .map_err(|e| kind(&e));
    Ok(WriteResult {
        model,
        errs,
        finish,
        finish_ops_at,
    })
}

/// Fault-free expectations for each op of a plan.
fn expected_errs(plan: &WritePlan) -> Vec<Option<&'static str>> {
    let mut seen = std::collections::BTreeSet::new();
    plan.ops
        .iter()
        .map(|e| {
            if seen.contains(&e.name) {
                return Some("double-write");
            }
            if e.compress && e.data.len() >= 32 && plan.version < PakVersion::CompressionEncryption
            {
                return Some("config");
            }
            seen.insert(e.name.clone());
            None
        })
        .collect()
}

fn show(d: &[u8]) -> String {
    format!("{}B/{:016x}", d.len(), simcore::fnv(d))
}

fn same(class: &str, what: &str, name: &str, got: &[u8], want: &[u8]) -> Result<(), Violation> {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b);
        return Err(vio(
            class,
            format!(
                "{what} of {name:?}: {} instead of {} (first difference {at:?})",
                show(got),
                show(want)
            ),
        ));
    }
    Ok(())
}

/// Read everything back through every read path of the library.
pub fn verify_all(ctx: &mut Ctx, bytes: &[u8], model: &Model, mount: &str) -> Outcome {
    verify_at(ctx, bytes, 0, model, mount)
}

/// A file with a hole before `bytes`.
fn file_at(ctx: &mut Ctx, bytes: &[u8], base: u64) -> SimFile {
    let mut f = SimFile::new(bytes.to_vec());
    if bytes.len() < 1 << 20 {
        f.disturb(ctx);
    }
    if base > 0 {
        f.set_base(base);
        ctx.probe("beyond 2 GiB");
    }
    f
}

pub fn verify_at(ctx: &mut Ctx, bytes: &[u8], base: u64, model: &Model, mount: &str) -> Outcome {
    let f = file_at(ctx, bytes, base);
    let cap = buf_cap(ctx);
    let mut r = PakReader::new(Source::make(f.reopen(), cap));
    guard("load_index", || r.load_index())?
        .map_err(|e| vio("finished-archive-rejected", format!("load_index: {e}")))?;
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    let want: Vec<String> = model.keys().cloned().collect();
    ensure!(names == want, "entry-set", "reader lists {names:?}, written {want:?}");
    ensure!(r.mount_point == mount, "mount-point", "{:?} vs {:?}", r.mount_point, mount);
    // random access, with repeats
    let n = if model.is_empty() { 0 } else { 1 + ctx.draw((model.len() as u64 * 2).min(60)) };
    for _ in 0..n {
        let k = want[ctx.draw(want.len() as u64) as usize].clone();
        let d = guard("read_entry", || r.read_entry(&k))?
            .map_err(|e| vio("entry-unreadable", format!("read_entry({k:?}): {e}")))?;
        same("wrong-bytes", "read_entry", &k, &d, &model[&k])?;
        ctx.check();
    }
    let absent = "no/such/entry".to_string();
    ensure!(!r.contains_entry(&absent), "phantom-entry", "contains_entry(absent)");
    match guard("read_entry", || r.read_entry(&absent))? {
        Err(e) if kind(&e) == "not-found" => {}
        o => return Err(vio("phantom-entry", format!("read of an absent entry: {o:?}"))),
    }
    let mut seen = vec![];
    let all = guard("iter", || {
        r.iter()
            .map(|(n, d)| (n.clone(), d))
            .collect::<Vec<(String, Result<Vec<u8>, PakError>)>>()
    })?;
    for (name, d) in all {
        let d = d.map_err(|e| vio("entry-unreadable", format!("iter {name:?}: {e}")))?;
        match model.get(&name) {
            None => return Err(vio("entry-set", format!("iter yields {name:?}"))),
            Some(w) => same("wrong-bytes", "iter", &name, &d, w)?,
        }
        seen.push(name);
        ctx.check();
    }
    ensure!(seen == want, "entry-set", "iter order {seen:?} vs {want:?}");
    // PakMemory
    let f2 = file_at(ctx, bytes, base);
    let mut src = Source::make(f2.reopen(), buf_cap(ctx));
    let m = guard("PakMemory::load_from", || PakMemory::load_from(&mut src))?
        .map_err(|e| vio("finished-archive-rejected", format!("PakMemory::load_from: {e}")))?;
    let names: Vec<String> = m.get_entry_names().into_iter().cloned().collect();
    ensure!(names == want, "entry-set", "PakMemory lists {names:?}, written {want:?}");
    ensure!(m.mount_point == mount, "mount-point", "{:?} vs {:?}", m.mount_point, mount);
    for (k, w) in model {
        let d = m.get_entry(k).cloned().unwrap_or_default();
        same("wrong-bytes", "PakMemory", k, &d, w)?;
        ctx.check();
    }
    f.drain(ctx);
    f2.drain(ctx);
    Ok(())
}

fn verify_reference(ctx: &mut Ctx, bytes: &[u8], base: u64, model: &Model, mount: &str, v: PakVersion) -> Outcome {
    let r = refpak::parse_at(bytes, base)
        .map_err(|e| vio("format", format!("independent reader rejects the archive: {e}")))?;
    ensure!(r.version == v.to_num(), "format", "version {} vs {:?}", r.version, v);
    ensure!(r.mount == mount, "format", "mount {:?} vs {:?}", r.mount, mount);
    ensure!(
        r.entries.keys().eq(model.keys()),
        "format",
        "independent reader sees entries {:?}",
        r.entries.keys()
    );
    for (k, w) in model {
        same("format", "independent reader", k, &r.entries[k], w)?;
    }
    ctx.check();
    Ok(())
}

fn mount_of(plan: &WritePlan) -> String {
    plan.mount.clone().unwrap_or_else(|| "../../../".into())
}

// ---------------------------------------------------------------- A: round trip

pub fn roundtrip_writer(ctx: &mut Ctx) -> Outcome {
    let plan = write_plan(ctx, 12);
    let file = SimFile::new(vec![]);
    if plan.ops.len() < 20 && plan.ops.iter().all(|e| e.data.len() < 1 << 20) {
        file.disturb(ctx);
    }
    let r = run_write(&plan, &file, false)?;
    file.drain(ctx);
    ensure!(
        r.errs == expected_errs(&plan),
        "write-result",
        "results {:?}, expected {:?}",
        r.errs,
        expected_errs(&plan)
    );
    if let Err(k) = r.finish {
        return Err(vio("write-result", format!("finish_write failed without a fault: {k}")));
    }
    if r.model.is_empty() {
        ctx.probe("empty-archive");
    }
    let bytes = file.content();
    let m = mount_of(&plan);
    verify_at(ctx, &bytes, plan.base, &r.model, &m)?;
    verify_reference(ctx, &bytes, plan.base, &r.model, &m, plan.version)?;
    if r.errs.iter().any(|e| *e == Some("double-write")) {
        ctx.probe("duplicate-rejected");
    }
    Ok(())
}

/// Several generations: build in memory, write, load, edit, write again under
/// another version.
pub fn roundtrip_memory(ctx: &mut Ctx) -> Outcome {
    let mut model = Model::new();
    let v0 = gen::version(ctx);
    let mut mem = PakMemory::new(v0);
    let mut mount = "../../../".to_string();
    let gens = 1 + ctx.draw(4);
    let mut cur_v = v0;
    for g in 0..gens {
        let bs = gen::block_size(ctx);
        mem.block_size = bs;
        if let Some(m) = gen::mount(ctx) {
            mem.mount_point = m.clone();
            mount = m;
        }
        let n = ctx.draw(6);
        for _ in 0..n {
            let name = gen::name(ctx);
            let data = gen::payload(ctx, bs);
            ctx.event(format!("set {:?} {}", name.chars().take(20).collect::<String>(), data.len()));
            mem.set_entry(name.clone(), data.clone());
            if model.insert(name, data).is_some() {
                ctx.probe("overwrite");
            }
        }
        for (k, w) in &model {
            same("wrong-bytes", "get_entry", k, mem.get_entry(k).unwrap_or(&vec![]), w)?;
        }
        let listed: Vec<(String, usize)> = mem.iter().map(|(k, d)| (k.clone(), d.len())).collect();
        let want: Vec<(String, usize)> = model.iter().map(|(k, d)| (k.clone(), d.len())).collect();
        ensure!(listed == want, "entry-set", "PakMemory::iter {listed:?} vs {want:?}");
        let file = SimFile::new(vec![]);
        file.disturb(ctx);
        let cap = buf_cap(ctx);
        let base = hole(ctx);
        let res = guard("PakMemory::write", || {
            let mut h = file.reopen();
            h.set_base(base);
            let mut s = Sink::make(h, cap);
            mem.write(&mut s)
        })?;
        file.drain(ctx);
        if let Err(e) = res {
            // compressed data cannot be expressed before v3
            if cur_v < PakVersion::CompressionEncryption && kind(&e) == "config" {
                ctx.probe("v2-cannot-compress");
                return Ok(());
            }
            return Err(vio("write-result", format!("PakMemory::write: {e}")));
        }
        let bytes = file.content();
        ctx.event(format!("gen {g} {:?} -> {}", cur_v, show(&bytes)));
        verify_at(ctx, &bytes, base, &model, &mount)?;
        verify_reference(ctx, &bytes, base, &model, &mount, cur_v)?;
        if ctx.chance(1, 3) {
            // load the file on top of an in-memory archive with other content
            let mut base = PakMemory::new(gen::version(ctx));
            let mut merged = Model::new();
            for (k, d) in &model {
                match ctx.draw(3) {
                    0 => {
                        let mut o = d.clone();
                        for b in o.iter_mut() {
                            *b ^= 0x5a;
                        }
                        base.set_entry(k.clone(), o);
                    }
                    1 => {
                        let o = gen::payload(ctx, 64);
                        base.set_entry(k.clone(), o);
                    }
                    _ => {}
                }
            }
            for _ in 0..ctx.draw(3) {
                let n = gen::name(ctx);
                let d = gen::payload(ctx, 64);
                base.set_entry(n.clone(), d.clone());
                merged.insert(n, d);
            }
            for (k, d) in &model {
                merged.insert(k.clone(), d.clone());
            }
            let mut src = Source::make(file.reopen(), buf_cap(ctx));
            guard("PakMemory::load", || base.load(&mut src))?
                .map_err(|e| vio("finished-archive-rejected", format!("{e}")))?;
            ensure!(base.get_entry_names().into_iter().eq(merged.keys()), "entry-set", "load on top of other entries");
            for (k, w) in &merged {
                same("wrong-bytes", "load over an existing entry", k, base.get_entry(k).unwrap_or(&vec![]), w)?;
            }
            ensure!(base.mount_point == mount, "mount-point", "after load");
            ctx.probe("load-over-existing");
        }
        // next generation starts from the file
        let mut src = Source::make(file.reopen(), buf_cap(ctx));
        mem = guard("PakMemory::load_from", || PakMemory::load_from(&mut src))?
            .map_err(|e| vio("finished-archive-rejected", format!("{e}")))?;
        ensure!(mem.pak_version == cur_v, "version", "{:?} loaded as {:?}", cur_v, mem.pak_version);
        if ctx.chance(1, 3) {
            cur_v = gen::version(ctx);
            mem.pak_version = cur_v;
            ctx.probe("version-change");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- B: write faults

fn draw_write_fault(ctx: &mut Ctx) -> Fault {
    match ctx.draw(4) {
        0 => Fault::Eio,
        1 => Fault::Zero,
        2 => Fault::Short(1 + ctx.draw(20) as usize),
        _ => Fault::Eintr,
    }
}

/// Faults anywhere in a write history, including the caller's buffered tail.
pub fn write_faults(ctx: &mut Ctx) -> Outcome {
    let plan = write_plan(ctx, 6);
    let probe = SimFile::new(vec![]);
    let dry = run_write(&plan, &probe, false)?;
    let total_ops = probe.ops().max(1);
    let fin_at = dry.finish_ops_at.min(total_ops - 1);
    let dry_len = probe.len() as u64;
    let file = SimFile::new(vec![]);
    match ctx.draw(5) {
        0 => {
            // one call fails, position uniform over the history
            let at = ctx.draw(total_ops);
            let f = draw_write_fault(ctx);
            file.at(at, f);
        }
        1 => {
            // aimed at the end: index, footer, final flush
            let at = fin_at + ctx.draw(total_ops - fin_at + 1);
            file.at(at, Fault::Eio);
        }
        2 => {
            // disk full
            let cap = if ctx.draw(2) == 0 {
                ctx.draw(dry_len + 1)
            } else {
                dry_len.saturating_sub(ctx.draw(400))
            };
            file.st.borrow_mut().capacity = Some(cap as usize);
        }
        3 => {
            // device dies for good
            let at = ctx.draw(total_ops + 1);
            file.at(at, Fault::Crash(ctx.draw(64) as usize));
        }
        _ => {
            for _ in 0..1 + ctx.draw(4) {
                let at = ctx.draw(total_ops + 1);
                let f = draw_write_fault(ctx);
                file.at(at, f);
            }
            if ctx.chance(1, 2) {
                file.disturb(ctx);
            }
        }
    }
    if plan.prefix > 0 && file.st.borrow().plan.keys().any(|k| *k < 8) {
        // faults inside the foreign prefix are not the archive's business
        return Ok(());
    }
    let retry = ctx.chance(1, 2);
    let r = run_write(&plan, &file, retry)?;
    let errs = file.errors();
    ctx.event(format!("errs={:?} finish={:?} disk_errors={}", r.errs, r.finish, errs));
    file.drain(ctx);
    // An operation may fail only because a fault reached it.
    if errs == 0 {
        ensure!(
            r.finish.is_ok() && r.errs.iter().all(|e| *e != Some("io")),
            "spurious-error",
            "no disk error was injected but {:?} / {:?}",
            r.errs,
            r.finish
        );
    }
    if r.finish.is_ok() {
        ctx.probe(if errs > 0 { "finish-ok-after-fault" } else { "finish-ok" });
        file.clear_faults();
        let bytes = file.content();
        // success was reported: exactly the acknowledged entries are on disk
        verify_all(ctx, &bytes, &r.model, &mount_of(&plan)).map_err(|v| {
            vio(
                &format!("false-success:{}", v.class),
                format!(
                    "every call after the fault reported success (finish_write Ok), but: {} [disk {} of {} bytes]",
                    v.detail,
                    bytes.len(),
                    dry_len
                ),
            )
        })?;
    } else {
        ctx.probe("finish-err");
        ctx.check();
    }
    Ok(())
}

/// The same for PakMemory::write, the one-shot writer.
pub fn write_faults_memory(ctx: &mut Ctx) -> Outcome {
    let v = gen::version(ctx);
    let mut mem = PakMemory::new(v);
    mem.block_size = gen::block_size(ctx);
    let mut model = Model::new();
    for _ in 0..ctx.draw(6) {
        let n = gen::name(ctx);
        let d = gen::payload(ctx, mem.block_size);
        mem.set_entry(n.clone(), d.clone());
        model.insert(n, d);
    }
    if ctx.chance(1, 2) && v >= PakVersion::FnameBasedCompressionMethod {
        // an archive that prefers zlib, obtained by loading one
        let f = SimFile::new(vec![]);
        let mut w = PakWriter::new(f.reopen(), v);
        for (n, d) in &model {
            w.write_entry(n, d, true).map_err(|e| vio("write-result", e.to_string()))?;
        }
        w.finish_write().map_err(|e| vio("write-result", e.to_string()))?;
        mem = guard("load_from", || PakMemory::load_from(&mut f.reopen()))?
            .map_err(|e| vio("finished-archive-rejected", e.to_string()))?;
    }
    let cap = buf_cap(ctx);
    let probe = SimFile::new(vec![]);
    {
        let mut s = Sink::make(probe.reopen(), cap);
        guard("PakMemory::write", || mem.write(&mut s))?
            .map_err(|e| vio("write-result", e.to_string()))?;
    }
    let ops = probe.ops().max(1);
    let file = SimFile::new(vec![]);
    match ctx.draw(3) {
        0 => file.at(ctx.draw(ops + 1), draw_write_fault(ctx)),
        1 => {
            let back = ctx.draw(8);
            file.at((ops).saturating_sub(back), Fault::Eio)
        }
        _ => {
            let c = ctx.draw(probe.len() as u64 + 1);
            file.st.borrow_mut().capacity = Some(c as usize)
        }
    }
    let res = guard("PakMemory::write", || {
        let mut s = Sink::make(file.reopen(), cap);
        mem.write(&mut s)
    })?;
    let errs = file.errors();
    ctx.event(format!("cap={cap:?} res={:?} disk_errors={errs}", res.as_ref().map_err(kind)));
    file.drain(ctx);
    if errs == 0 {
        ensure!(res.is_ok(), "spurious-error", "{res:?} without a disk error");
    }
    if res.is_ok() {
        file.clear_faults();
        let mp = mem.mount_point.clone();
        verify_all(ctx, &file.content(), &model, &mp).map_err(|v| {
            vio(
                &format!("false-success:{}", v.class),
                format!("PakMemory::write returned Ok, but: {}", v.detail),
            )
        })?;
    } else {
        // the in-memory archive is untouched: writing to a healthy disk works
        let f2 = SimFile::new(vec![]);
        {
            let mut s = Sink::make(f2.reopen(), cap);
            guard("PakMemory::write", || mem.write(&mut s))?
                .map_err(|e| vio("no-recovery", format!("retry on a healthy disk: {e}")))?;
        }
        let mp = mem.mount_point.clone();
        verify_all(ctx, &f2.content(), &model, &mp)?;
        ctx.probe("memory-retry");
    }
    Ok(())
}

// ---------------------------------------------------------------- D: isolation of a failed write

pub fn failed_entry_isolated(ctx: &mut Ctx) -> Outcome {
    let plan = write_plan(ctx, 8);
    let probe = SimFile::new(vec![]);
    let dry = run_write(&plan, &probe, false)?;
    let before_finish = dry.finish_ops_at;
    if before_finish < 2 {
        return Ok(());
    }
    let file = SimFile::new(vec![]);
    let skip = if plan.prefix > 0 { 6 } else { 0 };
    let n = 1 + ctx.draw(3);
    for _ in 0..n {
        let at = skip + ctx.draw(before_finish.saturating_sub(skip).max(1));
        let f = match ctx.draw(3) {
            0 => Fault::Eio,
            1 => Fault::Zero,
            _ => Fault::Short(1 + ctx.draw(8) as usize),
        };
        file.at(at, f);
    }
    // the history: faults are transient, failed entries are retried, then the
    // device is healthy again for the finish
    let mut handle = file.reopen();
    if plan.base > 0 {
        handle.set_base(plan.base);
    }
    let mut sink = Sink::make(handle, plan.cap);
    if plan.prefix > 0 {
        let _ = sink.write_all(&vec![0x55; plan.prefix]);
    }
    let mut w = PakWriter::new(sink, plan.version);
    w.block_size = plan.block_size;
    let mut model = Model::new();
    let mut failed = 0;
    let mut gave_up = std::collections::BTreeSet::new();
    for e in &plan.ops {
        let retries = ctx.draw(3);
        let mut k = 0;
        loop {
            let before = file.errors();
            match guard("write_entry", || w.write_entry(&e.name, &e.data, e.compress))? {
                Ok(()) => {
                    ensure!(!model.contains_key(&e.name), "duplicate-accepted", "{:?}", e.name);
                    model.insert(e.name.clone(), e.data.clone());
                    gave_up.remove(&e.name);
                    break;
                }
                Err(er) => {
                    if kind(&er) == "double-write" {
                        ensure!(
                            model.contains_key(&e.name),
                            "failed-entry-registered",
                            "{:?} was never acknowledged but a retry is refused as a duplicate",
                            e.name
                        );
                        break;
                    }
                    if kind(&er) == "config" {
                        break;
                    }
                    ensure!(file.errors() > before, "spurious-error", "{er} without a fault");
                    failed += 1;
                    ctx.event(format!("write_entry failed: {}", kind(&er)));
                    if k >= retries {
                        if !model.contains_key(&e.name) {
                            gave_up.insert(e.name.clone());
                        }
                        break;
                    }
                    k += 1;
                }
            }
        }
    }
    let names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
    ensure!(
        names.iter().eq(model.keys()),
        "writer-names",
        "writer lists {names:?}, acknowledged {:?}",
        model.keys()
    );
    file.clear_faults();
    guard("finish_write", move || w.finish_write())?
        .map_err(|e| vio("no-recovery", format!("finish_write on a healthy disk: {e}")))?;
    if file.drain(ctx) > 0 && failed > 0 {
        ctx.probe("entry-write-failed");
        if !gave_up.is_empty() {
            ctx.probe("entry-abandoned");
        }
    }
    verify_all(ctx, &file.content(), &model, "../../../")
}

// ---------------------------------------------------------------- C: crash points

fn build_clean(ctx: &mut Ctx, max: u64) -> Result<(WritePlan, Model, Vec<u8>), Violation> {
    let plan = write_plan(ctx, max);
    let f = SimFile::new(vec![]);
    let r = run_write(&plan, &f, false)?;
    if let Err(k) = r.finish {
        return Err(vio("write-result", k));
    }
    Ok((plan, r.model, f.content()))
}

/// Whatever a crash left behind is either rejected or read back exactly.
fn judge_remains(ctx: &mut Ctx, bytes: Vec<u8>, model: &Model, whole: bool) -> Outcome {
    let f = SimFile::new(bytes.clone());
    let cap = buf_cap(ctx);
    let mut r = PakReader::new(Source::make(f.reopen(), cap));
    ctx.check();
    match guard("load_index", || r.load_index())? {
        Err(e) => {
            ctx.probe("remains-rejected");
            ctx.event(format!("rejected: {}", kind(&e)));
            ensure!(r.get_entry_names().is_empty(), "half-loaded", "failed load_index left entries");
        }
        Ok(()) => {
            ctx.probe(if whole { "complete" } else { "remains-accepted" });
            let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
            for k in &names {
                let want = match model.get(k) {
                    Some(w) => w,
                    None => return Err(vio("phantom-entry", format!("torn archive lists {k:?}"))),
                };
                if let Ok(d) = guard("read_entry", || r.read_entry(k))? {
                    same("torn-wrong-bytes", "read_entry on a torn archive", k, &d, want)?;
                }
            }
            let all = guard("iter", || {
                r.iter().map(|(n, d)| (n.clone(), d.ok())).collect::<Vec<_>>()
            })?;
            for (n, d) in all {
                if let (Some(d), Some(w)) = (d, model.get(&n)) {
                    same("torn-wrong-bytes", "iter on a torn archive", &n, &d, w)?;
                }
            }
        }
    }
    let mut src = Source::make(SimFile::new(bytes), buf_cap(ctx));
    if let Ok(m) = guard("PakMemory::load_from", || PakMemory::load_from(&mut src))? {
        for (k, d) in m.iter() {
            match model.get(k) {
                Some(w) => same("torn-wrong-bytes", "PakMemory on a torn archive", k, d, w)?,
                None => return Err(vio("phantom-entry", format!("torn archive lists {k:?}"))),
            }
        }
    }
    Ok(())
}

/// A finished archive: mostly our own writer's, sometimes one of the engine's
/// (all versions).
fn build_any(ctx: &mut Ctx, max: u64) -> Result<(Model, Vec<u8>), Violation> {
    if ctx.chance(1, 3) {
        let (f, model) = gen_foreign(ctx, max);
        ctx.probe("engine-archive");
        return Ok((model, refpak::encode(&f)));
    }
    let (_, model, bytes) = build_clean(ctx, max)?;
    Ok((model, bytes))
}

pub fn crash_truncate(ctx: &mut Ctx) -> Outcome {
    let engine = ctx.chance(1, 3);
    let (model, bytes) = if engine {
        let (f, model) = gen_foreign(ctx, 5);
        ctx.probe("engine-archive");
        (model, refpak::encode(&f))
    } else {
        let (_, model, bytes) = build_clean(ctx, 5)?;
        (model, bytes)
    };
    let cuts = 1 + ctx.draw(12);
    for _ in 0..cuts {
        let back = match ctx.draw(5) {
            0 => ctx.draw(8),
            1 => ctx.draw(0x120),
            2 => *ctx.pick(&[0x20u64, 0xA0, 0xA1, 1, 0x80, 0x81, 0xCC, 0xCD, 0x2C, 0xAC, 0x21, 0x60, 0x40]),
            3 => ctx.draw(bytes.len() as u64 + 1),
            _ => ctx.draw(bytes.len() as u64 / 2 + 1),
        };
        let mut keep = bytes.len().saturating_sub(back as usize);
        if engine && keep + 0x20 == bytes.len() {
            // an 8B archive without its last compression name is a well-formed
            // 8A archive: the format leaves no way to tell
            keep -= 1;
        }
        ctx.event(format!("crash leaves {keep} of {} bytes", bytes.len()));
        if keep < bytes.len() {
            ctx.fault("truncated-by-crash");
        }
        judge_remains(ctx, bytes[..keep].to_vec(), &model, keep == bytes.len())?;
    }
    Ok(())
}

/// Crash inside a write call of the history; the file holds what was written.
pub fn crash_during_write(ctx: &mut Ctx) -> Outcome {
    let plan = write_plan(ctx, 5);
    let probe = SimFile::new(vec![]);
    let dry = run_write(&plan, &probe, false)?;
    let ops = probe.ops().max(1);
    let at = if ctx.draw(2) == 0 {
        ctx.draw(ops)
    } else {
        dry.finish_ops_at.min(ops - 1) + ctx.draw(ops - dry.finish_ops_at.min(ops - 1))
    };
    // stale content of the file being overwritten (previous archive generation)
    let stale = ctx.chance(1, 4);
    let file = SimFile::new(vec![]);
    file.at(at, Fault::Crash(ctx.draw(200) as usize));
    let r = run_write(&plan, &file, false)?;
    file.drain(ctx);
    ensure!(
        r.finish.is_err() || !file.st.borrow().crashed,
        "false-success",
        "the device died during the history and finish_write reported success"
    );
    let _ = stale;
    // entries that were acknowledged or in flight
    let mut may: Model = Model::new();
    for e in plan.ops.iter() {
        may.entry(e.name.clone()).or_insert_with(|| e.data.clone());
    }
    for (k, d) in &r.model {
        may.insert(k.clone(), d.clone());
    }
    judge_remains(ctx, file.content(), &may, r.finish.is_ok())
}

// ---------------------------------------------------------------- E: read faults

pub fn read_faults(ctx: &mut Ctx) -> Outcome {
    let (model, bytes) = build_any(ctx, 6)?;
    let f = SimFile::new(bytes.clone());
    let cap = buf_cap(ctx);
    if ctx.chance(1, 3) {
        f.disturb(ctx);
    }
    // calibrate: how many calls does a clean session make?
    let probe = SimFile::new(bytes.clone());
    {
        let mut r = PakReader::new(Source::make(probe.reopen(), cap));
        let _ = guard("load_index", || r.load_index())?;
        let _ = guard("iter", || r.iter().map(|(_, d)| d.is_ok()).collect::<Vec<_>>())?;
    }
    let span = probe.ops().max(1) * 2;
    let n = 1 + ctx.draw(5);
    for _ in 0..n {
        let at = ctx.draw(span);
        let fault = match ctx.draw(4) {
            0 => Fault::Eio,
            1 => Fault::Eof,
            2 => Fault::Short(1 + ctx.draw(6) as usize),
            _ => Fault::Eintr,
        };
        f.at(at, fault);
    }
    let mut r = PakReader::new(Source::make(f.reopen(), cap));
    let fired = |f: &SimFile| f.st.borrow().fired.iter().filter(|k| k.contains("error") || k.contains("eof")).count();
    let mut loaded = false;
    for _ in 0..8 {
        let b = fired(&f);
        match guard("load_index", || r.load_index())? {
            Ok(()) => {
                loaded = true;
                break;
            }
            Err(e) => {
                ensure!(fired(&f) > b, "spurious-error", "load_index: {e} without a fault");
                ctx.probe("load-failed-then-retried");
            }
        }
    }
    if !loaded {
        f.clear_faults();
        guard("load_index", || r.load_index())?
            .map_err(|e| vio("no-recovery", format!("load_index on a healthy disk: {e}")))?;
    }
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    ensure!(names.iter().eq(model.keys()), "entry-set", "{names:?} vs {:?}", model.keys());
    let rounds = 1 + ctx.draw(10);
    for _ in 0..rounds {
        if ctx.chance(1, 8) {
            // opening it once more; what was known is not lost if that fails
            let b = fired(&f);
            if let Err(e) = guard("load_index", || r.load_index())? {
                ensure!(fired(&f) > b, "spurious-error", "load_index: {e} without a fault");
                ctx.probe("reload-failed");
            }
            ensure!(
                r.get_entry_names().into_iter().eq(model.keys()),
                "entry-set",
                "after opening it again {:?} instead of {:?}",
                r.get_entry_names(),
                model.keys()
            );
        } else if ctx.draw(4) == 0 {
            let b = fired(&f);
            let all = guard("iter", || r.iter().map(|(n, d)| (n.clone(), d)).collect::<Vec<_>>())?;
            ensure!(
                all.iter().map(|x| &x.0).eq(model.keys()),
                "iter-skips",
                "iteration under faults yields {:?}",
                all.iter().map(|x| &x.0).collect::<Vec<_>>()
            );
            let mut bad = 0;
            for (n, d) in all {
                ctx.check();
                match d {
                    Ok(d) => same("wrong-bytes-under-fault", "iter", &n, &d, &model[&n])?,
                    Err(_) => bad += 1,
                }
            }
            ensure!(
                bad <= fired(&f) - b,
                "spurious-error",
                "{bad} entries failed, {} faults fired",
                fired(&f) - b
            );
            if bad > 0 {
                ctx.probe("iter-entry-error");
            }
        } else if !names.is_empty() {
            let k = names[ctx.draw(names.len() as u64) as usize].clone();
            let b = fired(&f);
            ctx.check();
            match guard("read_entry", || r.read_entry(&k))? {
                Ok(d) => same("wrong-bytes-under-fault", "read_entry", &k, &d, &model[&k])?,
                Err(e) => {
                    ensure!(fired(&f) > b, "spurious-error", "read_entry: {e} without a fault");
                    ctx.probe("read-failed");
                }
            }
        }
    }
    // liveness: once faults stop every entry is served on the first attempt
    f.clear_faults();
    for k in &names {
        let d = guard("read_entry", || r.read_entry(k))?
            .map_err(|e| vio("no-recovery", format!("read_entry after the faults: {e}")))?;
        same("wrong-bytes-after-fault", "read_entry", k, &d, &model[k])?;
        ctx.check();
    }
    f.drain(ctx);
    // PakMemory::load under one fault
    let f = SimFile::new(bytes);
    let at = ctx.draw(span);
    f.at(at, if ctx.draw(2) == 0 { Fault::Eio } else { Fault::Eof });
    let mut src = Source::make(f.reopen(), cap);
    let mut mem = PakMemory::new(PakVersion::Invalid);
    let res = guard("PakMemory::load", || mem.load(&mut src))?;
    let hit = fired(&f) > 0;
    match res {
        Ok(()) => {
            ensure!(mem.get_entry_names().into_iter().eq(model.keys()), "entry-set", "PakMemory::load Ok but entries missing");
        }
        Err(e) => {
            ensure!(hit, "spurious-error", "PakMemory::load: {e} without a fault");
            ctx.probe("memory-load-failed");
            f.clear_faults();
            guard("PakMemory::load", || mem.load(&mut src))?
                .map_err(|e| vio("no-recovery", format!("PakMemory::load retry: {e}")))?;
        }
    }
    for (k, d) in mem.iter() {
        match model.get(k) {
            Some(w) => same("wrong-bytes-under-fault", "PakMemory::load", k, d, w)?,
            None => return Err(vio("phantom-entry", k.clone())),
        }
    }
    f.drain(ctx);
    Ok(())
}

// ---------------------------------------------------------------- F: corruption

pub fn corruption(ctx: &mut Ctx) -> Outcome {
    let (_, bytes) = build_any(ctx, 4)?;
    let rounds = 1 + ctx.draw(20);
    for _ in 0..rounds {
        let mut d = bytes.clone();
        let flips = 1 + ctx.draw(4);
        let mut where_ = vec![];
        for _ in 0..flips {
            let len = d.len() as u64;
            // aim: footer, index, headers, anywhere
            let at = match ctx.draw(4) {
                0 => len - 1 - ctx.draw(len.min(0xCD + 0x11)),
                1 => len - 1 - ctx.draw(len.min(700)),
                2 => ctx.draw(len.min(120)),
                _ => ctx.draw(len),
            };
            let v = match ctx.draw(5) {
                0 => d[at as usize] ^ (1 << ctx.draw(8)),
                1 => 0xff,
                2 => 0x7f,
                3 => 0,
                _ => 0x80,
            };
            d[at as usize] = v;
            where_.push((at, v));
        }
        if ctx.chance(1, 8) {
            // a torn multi-byte field: four bytes at once
            let at = ctx.draw(d.len() as u64 - 3) as usize;
            let v = *ctx.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000, 0x0fff_ffff]);
            d[at..at + 4].copy_from_slice(&v.to_le_bytes());
            where_.push((at as u64, 0xEE));
        }
        if ctx.chance(1, 10) {
            let keep = ctx.draw(d.len() as u64 + 1) as usize;
            d.truncate(keep);
        }
        ctx.event(format!("flip {where_:?}"));
        ctx.fault("flipped-bytes");
        let f = SimFile::new(d.clone());
        let cap = buf_cap(ctx);
        let mut r = PakReader::new(Source::make(f.reopen(), cap));
        ctx.check();
        match guard("load_index", || r.load_index().is_ok())? {
            true => {
                ctx.probe("corrupt-index-accepted");
                let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
                for k in names.iter().take(6) {
                    let ok = guard("read_entry", || r.read_entry(k).is_ok())?;
                    ctx.probe(if ok { "corrupt-entry-read" } else { "corrupt-entry-rejected" });
                }
            }
            false => ctx.probe("corrupt-index-rejected"),
        }
        let mut src = Source::make(SimFile::new(d), cap);
        let ok = guard("PakMemory::load_from", || PakMemory::load_from(&mut src).is_ok())?;
        if ok {
            ctx.probe("corrupt-memory-load-ok");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- G: engine-produced archives

fn gen_foreign(ctx: &mut Ctx, max: u64) -> (refpak::Foreign, Model) {
    let mut version = *ctx.pick(&[8u32, 1, 2, 3, 4, 5, 6, 7, 80, 9, 10, 11]);
    let mut bs = gen::block_size(ctx).max(16);
    let mut files: Vec<(String, Vec<u8>, bool, usize)> = vec![];
    let mut model = Model::new();
    if ctx.chance(1, 12) {
        // multiples of 2048 have a short form in encoded indexes
        bs = *ctx.pick(&[0x800u32, 0x1000, 0x1e800, 0x1f000, 0x1f800, 0x20000]);
        let mut p = ctx.sub_prng();
        let mut d = gen::fill(&mut p, bs as usize + 1 + ctx.draw(40) as usize, 2);
        gen::strip_magic(&mut d);
        model.insert("Big/blocks.bin".into(), d.clone());
        files.push(("Big/blocks.bin".into(), d, true, 0));
    }
    for _ in 0..ctx.draw(max) {
        let name = gen::name(ctx);
        // (a full directory index has a slash before each directory)
        if name.is_empty() || name.starts_with('/') || name.ends_with('/') || model.contains_key(&name) {
            continue;
        }
        let d = gen::payload(ctx, bs);
        let gap = if ctx.chance(1, 3) { ctx.draw(200) as usize } else { 0 };
        let comp = ctx.draw(3) != 0;
        model.insert(name.clone(), d.clone());
        files.push((name, d, comp, gap));
    }
    if max >= 8 && ctx.chance(1, 200) {
        ctx.probe("wide");
        if ctx.chance(1, 2) {
            version = *ctx.pick(&[10, 11]);
        }
        files.clear();
        model.clear();
        for e in wide_ops(ctx, &mut bs) {
            model.insert(e.name.clone(), e.data.clone());
            files.push((e.name, e.data, e.compress, 0));
        }
    }
    let f = refpak::Foreign {
        base: if max >= 8 { hole(ctx) } else { 0 },
        version,
        mount: gen::mount(ctx).unwrap_or_else(|| "../../../".into()),
        block_size: bs,
        files,
        wide: ctx.draw(8) as u32,
        with_path_hash: ctx.draw(4) != 0,
        slot: if version == 80 { 0 } else { ctx.draw(5) as usize },
        legacy_method: *ctx.pick(&[1u32, 1, 0x10, 0x20]),
    };
    ctx.event(format!(
        "foreign v{} bs={} files={:?}",
        version,
        bs,
        f.files.iter().take(20).map(|x| (x.1.len(), x.2, x.3)).collect::<Vec<_>>(),
    ));
    if version >= 10 {
        ctx.probe("path-hash-index");
    }
    (f, model)
}

/// Archives laid out by the independent reference writer, read under faults.
pub fn foreign(ctx: &mut Ctx) -> Outcome {
    let (f, model) = gen_foreign(ctx, 8);
    let bytes = refpak::encode(&f);
    ctx.event(show(&bytes));
    verify_at(ctx, &bytes, f.base, &model, &f.mount)
}
