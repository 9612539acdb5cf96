use crate::refpak;
use crate::world::*;
use simcore::{Ctx, Outcome, Prng, Violation};
use std::path::{Path, PathBuf};

fn vio(c: &str, d: impl Into<String>) -> Violation {
    Violation::new(c, d)
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($d:tt)*) => { if !$c { return Err(vio($class, format!($($d)*))); } };
}

fn gen_data(ctx: &mut Ctx) -> Vec<u8> {
    let len = match ctx.draw(8) {
        0 => ctx.draw(3),
        1 => 30 + ctx.draw(5),
        2 => ctx.draw(200),
        3 => ctx.draw(5000),
        4 => 65534 + ctx.draw(5),
        5 => 8190 + ctx.draw(5),
        6 => {
            if ctx.chance(1, 4) {
                131070 + ctx.draw(5)
            } else {
                ctx.draw(60)
            }
        }
        _ => ctx.draw(20000),
    } as usize;
    let style = ctx.draw(3);
    let mut p: Prng = ctx.sub_prng();
    match style {
        0 => vec![b'x'; len],
        1 => (0..len).map(|_| p.next() as u8).collect(),
        _ => (0..len).map(|i| if i % 64 < 50 { b'.' } else { p.next() as u8 }).collect(),
    }
}

pub fn gen_tree(ctx: &mut Ctx, max: u64) -> Tree {
    let comps = ["Content", "Maps", "a", "b c", "\u{43a}\u{43e}\u{442}", "\u{1F980}", "x.y", "D"];
    let mut t = Tree::new();
    if ctx.chance(1, 400) {
        // more files than one byte counts, in one directory or in as many
        let deep = ctx.chance(1, 2);
        for k in 0..255 + ctx.draw(4) {
            let n = if deep { format!("many/{k}/f") } else { format!("many/f{k}") };
            t.insert(n, vec![k as u8; 3]);
        }
    }
    for _ in 0..ctx.draw(max + 1) {
        let mut n = String::new();
        let depth = if ctx.chance(1, 12) { ctx.draw(12) } else { ctx.draw(4) };
        for _ in 0..depth {
            n.push_str(comps[ctx.draw(comps.len() as u64) as usize]);
            n.push('/');
        }
        let i = ctx.draw(12);
        let leaf = match ctx.draw(9) {
            5 => format!("nested{i}.pak"),
            6 => format!(" {i} "),
            7 => ctx.pick(&["-n", "~", "%41.txt", "a:b", "metadata.json", "...", "x.", "Mount.point", "*", "e\u{301}te\u{301}1.uexp", "new\nline", "tab\t", "ends ", "\u{feff}bom", "a\u{a0}b"]).to_string(),
            0 => format!("f{i}.uasset"),
            1 => format!("f{i}"),
            2 if ctx.chance(1, 8) => format!("{i}{}", "l".repeat(240 + ctx.draw(13) as usize)),
            2 => format!(".hidden{i}"),
            3 => format!("\u{e9}t\u{e9}{i}.uexp"),
            4 => format!("{i} with space.txt"),
            _ => format!("F{i}.UASSET"),
        };
        n.push_str(&leaf);
        // a name cannot be both a file and a directory
        let clash = t.keys().any(|k: &String| {
            k.starts_with(&format!("{n}/")) || n.starts_with(&format!("{k}/"))
        });
        let d = gen_data(ctx);
        if !clash {
            t.insert(n, d);
        }
    }
    ctx.event(format!(
        "tree {:?}",
        t.iter().map(|(k, v)| (k.clone(), v.len(), simcore::fnv(v))).collect::<Vec<_>>()
    ));
    t
}

fn diff(got: &Tree, want: &Tree) -> Option<String> {
    for (k, w) in want {
        match got.get(k) {
            None => return Some(format!("{k:?} is missing")),
            Some(g) if g != w => {
                return Some(format!("{k:?} has {} bytes instead of {} (content differs)", g.len(), w.len()))
            }
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Some(format!("{k:?} should not exist"));
        }
    }
    None
}

fn pak_equals(path: &Path, tree: &Tree) -> Result<(), String> {
    let b = std::fs::read(path).map_err(|e| e.to_string())?;
    let p = refpak::parse(&b)?;
    match diff(&p.entries, tree) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}

struct CreateArgs {
    cwd: PathBuf,
    args: Vec<String>,
    pak: PathBuf,
}

/// The ways a user spells "create a pak from this directory".
fn create_args(ctx: &mut Ctx, w: &World, dir: &str) -> CreateArgs {
    let cwd = w.root.clone();
    let mut args = vec!["create".to_string()];
    if ctx.chance(1, 3) {
        args.push(if ctx.draw(2) == 0 { "-n" } else { "--no-compression" }.into());
    }
    args.push(match ctx.draw(4) {
        0 => dir.to_string(),
        1 => w.root.join(dir).to_string_lossy().into_owned(),
        2 => format!("{dir}/"),
        _ => format!("./{dir}"),
    });
    let pak;
    match ctx.draw(3) {
        0 => {
            pak = w.root.join(format!("{dir}.pak"));
        }
        1 => {
            args.push("out.pak".into());
            pak = w.root.join("out.pak");
        }
        _ => {
            pak = w.root.join("o.pak");
            args.push(pak.to_string_lossy().into_owned());
        }
    }
    ctx.event(format!("create args {:?}", args.iter().map(|a| a.replace(&*w.root.to_string_lossy(), "$ROOT")).collect::<Vec<_>>()));
    CreateArgs { cwd, args, pak }
}

fn benign(ctx: &mut Ctx, calls: usize) -> String {
    let mut s = vec![];
    for _ in 0..ctx.draw(8) {
        let at = ctx.draw(calls as u64 * 2 + 1);
        let k = if ctx.draw(2) == 0 { "i".to_string() } else { format!("s:{}", 1 + ctx.draw(40)) };
        s.push(format!("{at}:{k}"));
    }
    s.join(",")
}

/// Calibrated fault plan over the calls of a dry run; `kinds` are plan letters.
fn hard(ctx: &mut Ctx, ops: &[(String, String)], kinds: &[&str]) -> String {
    let mut s = vec![];
    let n = 1 + ctx.draw(3);
    for _ in 0..n {
        let at = match ctx.draw(3) {
            0 => ctx.draw(ops.len() as u64 + 1),
            1 => (ops.len() as u64).saturating_sub(1 + ctx.draw(6)),
            _ => {
                // aim at a kind of call rather than at a position
                let what = *ctx.pick(&["openw", "open", "write", "read", "opendir", "readdir", "stat", "mkdir", "seek"]);
                let c: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.0 == what).map(|(i, _)| i).collect();
                if c.is_empty() {
                    ctx.draw(ops.len() as u64 + 1)
                } else {
                    c[ctx.draw(c.len() as u64) as usize] as u64
                }
            }
        };
        let k = *ctx.pick(kinds);
        let k = match k {
            "s" => format!("s:{}", 1 + ctx.draw(30)),
            "n" => format!("n:{}", ctx.draw(2)),
            k => k.to_string(),
        };
        s.push(format!("{at}:{k}"));
    }
    s.join(",")
}

fn hard_fired(r: &Run) -> bool {
    r.fired.iter().any(|f| !f.starts_with('s') && !f.starts_with('i'))
}

pub fn identity(ctx: &mut Ctx) -> Outcome {
    let mut w = World::new();
    let tree = gen_tree(ctx, 10);
    let src = w.root.join("in");
    write_tree(&src, &tree);
    for i in 0..ctx.draw(3) {
        std::fs::create_dir_all(src.join(format!("empty{i}/deep"))).unwrap();
    }
    w.dirseed = ctx.draw(1 << 30);
    let c = create_args(ctx, &w, "in");
    if ctx.chance(1, 4) {
        // an older archive of that name is replaced
        let old = gen_tree(ctx, 6);
        let p = make_pak(ctx, &w, &old, "old.pak");
        std::fs::rename(p, &c.pak).unwrap();
    }
    let plan = benign(ctx, 20 + tree.len() * 6);
    let r = w.cli(&c.cwd, &c.args, &plan);
    note(ctx, "create", &r);
    no_signal(&r, "create")?;
    ensure!(r.code == Some(0), "create-failed", "create exited {:?} without a fault: {}", r.code, r.stderr);
    ensure!(r.escapes.is_empty(), "escape", "create touched {:?}", r.escapes);
    if let Some(d) = diff(&read_tree(&src), &tree) {
        return Err(vio("input-modified", d));
    }
    pak_equals(&c.pak, &tree).map_err(|e| vio("created-pak-differs", e))?;
    for cmd in ["check", "check-header"] {
        let plan = benign(ctx, 40);
        let r = w.cli(&w.root.clone(), &[cmd.into(), c.pak.to_string_lossy().into()], &plan);
        note(ctx, cmd, &r);
        ensure!(r.code == Some(0), "check-failed", "{cmd} exited {:?} on a created pak: {}", r.code, r.stderr);
    }
    let before = std::fs::read(&c.pak).unwrap();
    let (args, out) = if ctx.draw(2) == 0 {
        (vec!["extract".to_string(), c.pak.to_string_lossy().into(), "xout".into()], w.root.join("xout"))
    } else {
        // default output: next to the pak, named after it
        let moved = w.root.join("moved.pak");
        std::fs::rename(&c.pak, &moved).unwrap();
        let spec = if ctx.draw(2) == 0 { "moved.pak".to_string() } else { moved.to_string_lossy().into_owned() };
        (vec!["extract".to_string(), spec], w.root.join("moved"))
    };
    let mut want = tree.clone();
    if ctx.chance(1, 3) {
        // what an earlier extraction left there is replaced, other files stay
        ctx.probe("extract-over-existing");
        let mut stale = Tree::new();
        for (k, d) in &tree {
            match ctx.draw(4) {
                0 => {}
                1 => drop(stale.insert(k.clone(), d.iter().map(|b| !b).collect())),
                2 => drop(stale.insert(k.clone(), [d.as_slice(), b"older and longer"].concat())),
                _ => drop(stale.insert(k.clone(), d[..d.len() / 2].to_vec())),
            }
        }
        stale.insert("unrelated.bin".into(), b"unrelated".to_vec());
        write_tree(&out, &stale);
        want.entry("unrelated.bin".into()).or_insert_with(|| b"unrelated".to_vec());
    }
    let plan = benign(ctx, 20 + tree.len() * 6);
    let r = w.cli(&w.root.clone(), &args, &plan);
    note(ctx, "extract", &r);
    no_signal(&r, "extract")?;
    ensure!(r.code == Some(0), "extract-failed", "extract exited {:?} without a fault: {}", r.code, r.stderr);
    if let Some(d) = diff(&read_tree(&out), &want) {
        return Err(vio("extracted-tree-differs", d));
    }
    let pakname = if c.pak.exists() { c.pak.clone() } else { w.root.join("moved.pak") };
    ensure!(std::fs::read(&pakname).ok().as_ref() == Some(&before), "pak-modified", "extract changed the pak");
    ctx.check();
    if tree.is_empty() {
        ctx.probe("empty-tree");
    }
    Ok(())
}

pub fn create_faults(ctx: &mut Ctx) -> Outcome {
    let mut w = World::new();
    let tree = gen_tree(ctx, 8);
    write_tree(&w.root.join("in"), &tree);
    w.dirseed = ctx.draw(1 << 20);
    let c = create_args(ctx, &w, "in");
    let dry = w.cli(&c.cwd, &c.args, "");
    ensure!(dry.code == Some(0), "create-failed", "create exited {:?}: {}", dry.code, dry.stderr);
    let _ = std::fs::remove_file(&c.pak);
    if ctx.chance(1, 3) {
        // an older archive is replaced
        std::fs::write(&c.pak, vec![0x42; 40_000]).unwrap();
    }
    let plan = hard(ctx, &dry.ops, &["e", "n", "s", "i", "a", "m"]);
    let r = w.cli(&c.cwd, &c.args, &plan);
    note(ctx, "create", &r);
    no_signal(&r, "create")?;
    ctx.check();
    if !hard_fired(&r) {
        ensure!(r.code == Some(0), "spurious-failure", "create exited {:?} without a hard fault: {}", r.code, r.stderr);
    }
    if r.code == Some(0) {
        ctx.probe(if hard_fired(&r) { "create-ok-despite-fault" } else { "create-ok" });
        pak_equals(&c.pak, &tree).map_err(|e| {
            vio("false-success:create", format!("create exited 0 after {:?}, but: {e}", r.fired))
        })?;
    } else {
        ctx.probe("create-reported-failure");
        // recovery: the same command on a healthy system
        let r = w.cli(&c.cwd, &c.args, "");
        ensure!(r.code == Some(0), "no-recovery", "create after the fault: {:?} {}", r.code, r.stderr);
        pak_equals(&c.pak, &tree).map_err(|e| vio("no-recovery", e))?;
    }
    Ok(())
}

fn make_pak(ctx: &mut Ctx, w: &World, tree: &Tree, name: &str) -> PathBuf {
    // an independently encoded archive, so that extraction is judged alone
    let f = refpak::Foreign {
        base: 0,
        version: *ctx.pick(&[8u32, 3, 5, 7, 9, 11]),
        mount: "../../../".into(),
        block_size: 65536,
        files: tree
            .iter()
            .map(|(n, d)| (n.clone(), d.clone(), d.len() >= 32 && d.len() % 2 == 0, 0))
            .collect(),
        wide: 0,
        with_path_hash: true,
        slot: 0,
        legacy_method: 1,
    };
    let p = w.root.join(name);
    std::fs::write(&p, refpak::encode(&f)).unwrap();
    p
}

pub fn extract_faults(ctx: &mut Ctx) -> Outcome {
    let w = World::new();
    let tree = gen_tree(ctx, 8);
    let pak = make_pak(ctx, &w, &tree, "a.pak");
    let args = vec!["extract".to_string(), pak.to_string_lossy().into_owned(), "out".into()];
    let dry = w.cli(&w.root, &args, "");
    ensure!(dry.code == Some(0), "extract-failed", "extract exited {:?}: {}", dry.code, dry.stderr);
    let _ = std::fs::remove_dir_all(w.root.join("out"));
    let plan = hard(ctx, &dry.ops, &["e", "n", "s", "i", "a", "m", "z"]);
    let r = w.cli(&w.root, &args, &plan);
    note(ctx, "extract", &r);
    no_signal(&r, "extract")?;
    ctx.check();
    if !hard_fired(&r) {
        ensure!(r.code == Some(0), "spurious-failure", "extract exited {:?} without a hard fault: {}", r.code, r.stderr);
    }
    if r.code == Some(0) {
        ctx.probe(if hard_fired(&r) { "extract-ok-despite-fault" } else { "extract-ok" });
        if let Some(d) = diff(&read_tree(&w.root.join("out")), &tree) {
            return Err(vio("false-success:extract", format!("extract exited 0 after {:?}, but {d}", r.fired)));
        }
    } else {
        ctx.probe("extract-reported-failure");
        let r = w.cli(&w.root, &args, "");
        ensure!(r.code == Some(0), "no-recovery", "extract after the fault: {:?} {}", r.code, r.stderr);
        if let Some(d) = diff(&read_tree(&w.root.join("out")), &tree) {
            return Err(vio("no-recovery", d));
        }
    }
    Ok(())
}

pub fn check_faults(ctx: &mut Ctx) -> Outcome {
    let w = World::new();
    let tree = gen_tree(ctx, 6);
    let pak = make_pak(ctx, &w, &tree, "a.pak");
    let header = ctx.draw(4) == 0;
    let args = vec![if header { "check-header" } else { "check" }.to_string(), pak.to_string_lossy().into_owned()];
    let dry = w.cli(&w.root, &args, "");
    ensure!(dry.code == Some(0), "check-failed", "check exited {:?}: {}", dry.code, dry.stderr);
    let mut damaged = false;
    if !header && ctx.chance(1, 2) && !tree.is_empty() {
        // damage that makes at least one entry unreadable: cut stored data out
        // by pointing the archive at a shorter file is a different archive, so
        // break a compressed stream instead
        let mut b = std::fs::read(&pak).unwrap();
        if let Some(i) = find_zlib(&b, &tree) {
            for k in 0..6 {
                b[i + k] ^= 0xff;
            }
            std::fs::write(&pak, b).unwrap();
            ctx.fault("damaged-entry");
            damaged = true;
        }
    }
    let plan = if ctx.draw(3) != 0 { hard(ctx, &dry.ops, &["e", "s", "i", "z", "a"]) } else { String::new() };
    let before = std::fs::read(&pak).unwrap();
    let r = w.cli(&w.root, &args, &plan);
    note(ctx, "check", &r);
    no_signal(&r, "check")?;
    ctx.check();
    ensure!(std::fs::read(&pak).unwrap() == before, "pak-modified", "check changed the pak");
    ensure!(read_tree(&w.root).len() == 1, "stray-files", "check created files");
    let read_fault = r.fired.iter().any(|f| {
        (f.starts_with('e') || f.starts_with('z')) && (f.contains("read") || f.contains("seek"))
    });
    if damaged || read_fault {
        ctx.probe("check-must-fail");
        ensure!(r.code != Some(0), "false-success:check", "check exited 0 although {:?} damaged={damaged}", r.fired);
    }
    if !damaged && !hard_fired(&r) {
        ensure!(r.code == Some(0), "spurious-failure", "check exited {:?} without a fault: {}", r.code, r.stderr);
    }
    Ok(())
}

/// Start of a compressed block of one of the archive's entries: a zlib header
/// from which that entry's first bytes really decode.
fn find_zlib(b: &[u8], tree: &Tree) -> Option<usize> {
    use std::io::Read;
    (57..b.len().saturating_sub(8)).find(|&i| {
        if b[i..i + 2] != [0x78, 0x9c] {
            return false;
        }
        let mut out = [0u8; 32];
        let mut d = flate2::read::ZlibDecoder::new(&b[i..]);
        d.read_exact(&mut out).is_ok()
            && tree.values().any(|v| v.len() >= 32 && v.len() % 2 == 0 && v[..32] == out)
    })
}

fn crash_plan(ctx: &mut Ctx, ops: &[(String, String)]) -> String {
    let writes: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.0 == "write" || o.0 == "openw").map(|(i, _)| i).collect();
    let at = if ctx.draw(2) == 0 || writes.is_empty() {
        ctx.draw(ops.len() as u64)
    } else {
        writes[ctx.draw(writes.len() as u64) as usize] as u64
    };
    format!("{at}:c:{}", if ctx.draw(2) == 0 { 0 } else { ctx.draw(9000) })
}

pub fn create_crash(ctx: &mut Ctx) -> Outcome {
    let mut w = World::new();
    let tree = gen_tree(ctx, 6);
    write_tree(&w.root.join("in"), &tree);
    w.dirseed = ctx.draw(1 << 20);
    let c = create_args(ctx, &w, "in");
    let dry = w.cli(&c.cwd, &c.args, "");
    ensure!(dry.code == Some(0), "create-failed", "create exited {:?}: {}", dry.code, dry.stderr);
    let _ = std::fs::remove_file(&c.pak);
    let old = if ctx.chance(1, 2) {
        let t = gen_tree(ctx, 4);
        let p = make_pak(ctx, &w, &t, "old.pak");
        std::fs::rename(p, &c.pak).unwrap();
        Some(t)
    } else {
        None
    };
    let plan = crash_plan(ctx, &dry.ops);
    ctx.event(format!("crash plan {plan}"));
    let r = w.cli(&c.cwd, &c.args, &plan);
    note(ctx, "create", &r);
    no_signal(&r, "create")?;
    ctx.check();
    // what the user finds afterwards
    if c.pak.exists() {
        let chk = w.cli(&w.root, &["check".into(), c.pak.to_string_lossy().into()], "");
        note(ctx, "check", &chk);
        no_signal(&chk, "check")?;
        let ex = w.cli(&w.root, &["extract".into(), c.pak.to_string_lossy().into(), "xo".into()], "");
        note(ctx, "extract", &ex);
        no_signal(&ex, "extract")?;
        let got = read_tree(&w.root.join("xo"));
        let new_ok = diff(&got, &tree).is_none();
        let old_ok = old.as_ref().map(|o| diff(&got, o).is_none()).unwrap_or(false);
        if chk.code == Some(0) || ex.code == Some(0) {
            ctx.probe("survivor-accepted");
            ensure!(
                new_ok || old_ok,
                "torn-accepted",
                "after a crash in create, check exits {:?} and extract exits {:?} but the content is neither the old nor the new tree",
                chk.code,
                ex.code
            );
        } else {
            ctx.probe("survivor-rejected");
            for (k, g) in &got {
                let a = tree.get(k) == Some(g);
                let b = old.as_ref().and_then(|o| o.get(k)) == Some(g);
                ensure!(a || b, "torn-wrong-bytes", "{k:?} extracted with wrong content from a torn pak");
            }
        }
    }
    // restart
    let r = w.cli(&c.cwd, &c.args, "");
    ensure!(r.code == Some(0), "no-recovery", "create after the crash: {:?} {}", r.code, r.stderr);
    pak_equals(&c.pak, &tree).map_err(|e| vio("no-recovery", format!("create after the crash: {e}")))?;
    Ok(())
}

pub fn extract_crash(ctx: &mut Ctx) -> Outcome {
    let w = World::new();
    let tree = gen_tree(ctx, 8);
    let pak = make_pak(ctx, &w, &tree, "a.pak");
    let args = vec!["extract".to_string(), pak.to_string_lossy().into_owned(), "out".into()];
    let dry = w.cli(&w.root, &args, "");
    ensure!(dry.code == Some(0), "extract-failed", "extract exited {:?}: {}", dry.code, dry.stderr);
    let _ = std::fs::remove_dir_all(w.root.join("out"));
    let before = std::fs::read(&pak).unwrap();
    for _ in 0..1 + ctx.draw(3) {
        let plan = crash_plan(ctx, &dry.ops);
        let r = w.cli(&w.root, &args, &plan);
        note(ctx, "extract", &r);
        no_signal(&r, "extract")?;
        ensure!(std::fs::read(&pak).unwrap() == before, "pak-modified", "extract changed the pak");
        // files left behind belong to the archive
        for (k, g) in &read_tree(&w.root.join("out")) {
            match tree.get(k) {
                None => return Err(vio("stray-files", format!("extract created {k:?}"))),
                Some(wd) => ensure!(
                    wd.starts_with(g),
                    "torn-wrong-bytes",
                    "{k:?} holds bytes that are not a prefix of the entry"
                ),
            }
        }
        ctx.check();
    }
    let r = w.cli(&w.root, &args, "");
    ensure!(r.code == Some(0), "no-recovery", "extract after the crash: {:?} {}", r.code, r.stderr);
    if let Some(d) = diff(&read_tree(&w.root.join("out")), &tree) {
        return Err(vio("no-recovery", format!("extract after the crash: {d}")));
    }
    Ok(())
}

pub fn containment(ctx: &mut Ctx) -> Outcome {
    let w = World::new();
    let mut tree = gen_tree(ctx, 4);
    let nice = tree.clone();
    let hostile = [
        "../evil", "../../evil", "../../../../../../../../../../../../evil/x", "a/../../evil", "a/b/../../../evil/y",
        "/evil", "//evil/x", "/etc/evil.conf", "..", "a/..", "../out2/evil", "./../evil", "a/./../../evil", "...//../../evil",
        "../sentinel", "../a.pak", "x/../../sentinel", "a//..//..//evil",
        "../../../../../../../tmp/vsim-evil",
    ];
    let mut nasty = 0;
    for _ in 0..ctx.draw(4) {
        let n = if ctx.chance(1, 2) {
            ctx.pick(&hostile).to_string()
        } else {
            // any sequence of parts, also names which are harmless in the end
            let mut n = String::new();
            for _ in 0..ctx.range(1, 7) {
                n += *ctx.pick(&["..", ".", "/", "./", "../", "//", "evil", "a", "a/", "out2/", "sentinel", "...", " ", "~", "\\", "..\\", "C:", "etc/"]);
            }
            n
        };
        let d = gen_data(ctx);
        tree.insert(n, d);
        nasty += 1;
    }
    std::fs::write(w.root.join("sentinel"), b"precious").unwrap();
    std::fs::create_dir_all(w.root.join("out2")).unwrap();
    std::fs::create_dir_all(w.root.join("cwd/deep")).unwrap();
    let pak = make_pak(ctx, &w, &tree, "a.pak");
    let out = match ctx.draw(4) {
        0 => w.root.join("out"),
        1 => w.root.join("cwd/deep/out"),
        2 => w.root.join("a"),
        _ => w.root.join("cwd/x"),
    };
    let mut args = vec!["extract".to_string(), pak.to_string_lossy().into_owned()];
    if out != w.root.join("a") {
        args.push(if ctx.draw(2) == 0 {
            out.to_string_lossy().into_owned()
        } else {
            // relative to cwd/deep
            let rel = out.strip_prefix(&w.root).unwrap();
            format!("../../{}", rel.display())
        });
    }
    if ctx.chance(1, 2) {
        std::fs::create_dir_all(&out).unwrap();
    }
    let plan = if ctx.chance(1, 3) {
        let k = ctx.draw(40);
        let f = *ctx.pick(&["e", "a", "n:1", "m", "c:0"]);
        format!("{k}:{f}")
    } else {
        String::new()
    };
    let outside = |w: &World| -> Tree {
        let rel = out.strip_prefix(&w.root).unwrap().to_string_lossy().into_owned();
        read_tree(&w.root)
            .into_iter()
            .filter(|(k, _)| !k.starts_with(&format!("{rel}/")))
            .collect()
    };
    let before = outside(&w);
    ctx.event(format!("hostile={:?} out={:?}", tree.keys().filter(|k| !nice.contains_key(*k)).collect::<Vec<_>>(), out.strip_prefix(&w.root).unwrap()));
    let r = w.cli(&w.root.join("cwd/deep"), &args, &plan);
    note(ctx, "extract", &r);
    no_signal(&r, "extract")?;
    ctx.check();
    ensure!(r.escapes.is_empty(), "escape", "extract tried to touch {:?}", r.escapes.first().map(|s| s.split(' ').next().unwrap_or("").to_string()));
    if let Some(d) = diff(&outside(&w), &before) {
        return Err(vio("escape", format!("outside the output directory {d}")));
    }
    if nasty > 0 {
        ctx.probe("hostile-archive");
    } else if plan.is_empty() {
        ensure!(r.code == Some(0), "extract-failed", "harmless archive: exit {:?} {}", r.code, r.stderr);
    }
    Ok(())
}
