//! G01: github_helpers over a network that fails.
use crate::world::Scratch;
use serde_json::json;
use simcore::{Ctx, Outcome, Violation};
use simstd::rt;
use std::sync::Arc;

pub fn download(ctx: &mut Ctx) -> Outcome {
    let scratch = Scratch::new();
    let root = scratch.0.clone();
    let n = *ctx.pick(&[0usize, 1, 17, 4096, 9000, 100_000]);
    let body: Vec<u8> = {
        let mut p = ctx.sub_prng();
        (0..n).map(|_| p.next() as u8).collect()
    };
    let body = Arc::new(body);
    let url = "https://github.example/r/x.bin".to_string();
    let status = *ctx.pick(&[200u16, 200, 200, 404, 500, 206]);
    let net = *ctx.pick(&[0u64, 4, 10]);
    let fs = *ctx.pick(&[0u64, 3, 12]);
    let left = ctx.range(0, 2);
    let what = ctx.draw(2);
    let api_bad = ctx.draw(3);
    let rel = json!({"assets": [{"name": "x.bin", "browser_download_url": url}, {"name": "y", "browser_download_url": "https://y"}], "tag_name": "v1"});
    let rel_text = match api_bad {
        0 => rel.to_string(),
        1 => "{\"message\": \"rate limited\"}".to_string(),
        _ => rel.to_string(),
    };
    let api_status = if api_bad == 2 { 403 } else { 200 };
    let (b2, u2, r2) = (body.clone(), url.clone(), root.clone());
    let rt2 = rel_text.clone();
    let (out, inner) = rt::run(
        ctx,
        rt::Config { root: root.clone(), max_steps: 200_000, crash_in: None },
        |i| {
            i.net_short = false;
            i.net_fault_num = net;
            i.fs_fault_den = fs;
            i.fs_faults_left = left;
            i.resources.insert(u2.clone(), rt::Resource { status, body: b2 });
            i.resources.insert(
                "https://api.github.com/repos/a/b/releases/latest".into(),
                rt::Resource { status: api_status, body: Arc::new(rt2.into_bytes()) },
            );
        },
        move || {
            if what == 0 {
                let mut f = match simstd::fs::File::create(r2.join("out.bin")) {
                    Ok(f) => f,
                    Err(_) => return None,
                };
                let a = github_helpers::ReleaseAsset { name: "x.bin".into(), browser_download_url: url.clone() };
                Some(a.download(&mut f).map(|_| 0usize).map_err(|e| e.to_string()))
            } else {
                Some(
                    github_helpers::get_latest_release("a/b")
                        .map(|r| r.assets.len() * 10 + usize::from(r.assets[0].name == "x.bin" && r.assets[0].browser_download_url == url))
                        .map_err(|e| e.to_string()),
                )
            }
        },
    );
    crate::end_checks(&inner, "github_helpers")?;
    let Some(out) = out.flatten() else { return Ok(()) };
    let outcome = inner.requests.last().map(|r| r.outcome.clone()).unwrap_or_default();
    let clean = inner.fired == 0;
    ctx.checks += 1;
    ctx.event(format!("what {what} ok {} {outcome}", out.is_ok()));
    if what == 0 {
        let got = std::fs::read(root.join("out.bin")).unwrap_or_default();
        match out {
            Ok(_) => {
                ctx.probe("download ok");
                if !outcome.starts_with('2') || outcome.contains(' ') {
                    return Err(Violation::new("download-ok-after-failure", format!("download() = Ok although the server's answer was {outcome:?}")));
                }
                if got != **body {
                    return Err(Violation::new("download-ok-incomplete", format!("{} of {} bytes in the file", got.len(), body.len())));
                }
            }
            Err(e) => {
                ctx.probe("download err");
                if clean && (200..300).contains(&status) {
                    return Err(Violation::new("download-fails-without-fault", e));
                }
            }
        }
    } else {
        match out {
            Ok(v) => {
                ctx.probe("release ok");
                if v != 21 || api_bad == 1 {
                    return Err(Violation::new("release-wrong", format!("{v}")));
                }
            }
            Err(e) => {
                if clean && api_bad == 0 {
                    return Err(Violation::new("release-fails-without-fault", e));
                }
            }
        }
    }
    Ok(())
}
