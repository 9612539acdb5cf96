//! The simulated network and the servers behind it (used by the reqwest stub).
use crate::rt;
use ::std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetError {
    Connect,
    Timeout,
    BadUrl,
    Body,
}

pub struct Reply {
    pub status: u16,
    pub body: Arc<Vec<u8>>,
    /// the connection breaks after this many bytes
    pub cut: Option<usize>,
    /// the connection ends cleanly after this many bytes (no length was announced)
    pub short: Option<usize>,
    pub chunked: bool,
}

pub fn fetch(url: &str) -> Result<Reply, NetError> {
    rt::seam("connect");
    if !(url.starts_with("http://") || url.starts_with("https://")) {
        rt::with(|i| {
            i.requests.push(rt::Request {
                url: url.to_owned(),
                outcome: "bad-url".into(),
            })
        });
        return Err(NetError::BadUrl);
    }
    let delay = rt::with(|i| [1u64, 50, 2000][i.ctx.draw(3) as usize] * 1_000_000);
    rt::sleep(delay);
    rt::with(|i| {
        let (status, body) = match i.resources.get(url) {
            Some(r) => (r.status, r.body.clone()),
            None => (404, Arc::new(b"<html>not found</html>".to_vec())),
        };
        let mut rep = Reply {
            status,
            body,
            cut: None,
            short: None,
            chunked: false,
        };
        let mut out = format!("{}", rep.status);
        let n = i.net_fault_num;
        if n > 0 && i.ctx.chance(n, 16) {
            match i.ctx.draw(if i.net_short { 6 } else { 5 }) {
                0 => {
                    i.fault("net-connect-error");
                    out = "connect-error".into();
                    i.requests.push(rt::Request { url: url.to_owned(), outcome: out });
                    return Err(NetError::Connect);
                }
                1 => {
                    i.fault("net-timeout");
                    out = "timeout".into();
                    i.now += 30_000_000_000;
                    i.requests.push(rt::Request { url: url.to_owned(), outcome: out });
                    return Err(NetError::Timeout);
                }
                2 => {
                    let s = *i.ctx.pick(&[503u16, 500, 404, 429, 403]);
                    i.fault("net-error-status");
                    rep.status = s;
                    rep.body = Arc::new(b"<html>error</html>".to_vec());
                    out = format!("{s}");
                }
                3 => {
                    // an error status with the complete old body (a proxy does that)
                    let s = *i.ctx.pick(&[500u16, 502, 404]);
                    i.fault("net-error-status-with-body");
                    rep.status = s;
                    out = format!("{s}");
                }
                4 => {
                    let k = i.ctx.draw(rep.body.len().max(1) as u64) as usize;
                    i.fault("net-connection-lost");
                    rep.cut = Some(k);
                    out += " cut";
                }
                _ => {
                    let k = i.ctx.draw(rep.body.len().max(1) as u64) as usize;
                    i.fault("net-short-body");
                    rep.short = Some(k);
                    out += " short";
                }
            }
        }
        rep.chunked = i.ctx.chance(1, 2);
        i.ctx.event(format!("net {url} -> {out}"));
        i.requests.push(rt::Request {
            url: url.to_owned(),
            outcome: out,
        });
        Ok(rep)
    })
}
