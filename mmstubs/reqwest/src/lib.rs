//! reqwest's blocking client over the simulated network.
use simstd::net::{self, NetError};
use std::fmt;
use std::io::{self, Read};

pub use http::header;
pub use http::{HeaderMap, Method, StatusCode};

#[derive(Debug)]
pub struct Error {
    kind: Kind,
    url: String,
}
#[derive(Debug)]
enum Kind {
    Net(NetError),
    Status(StatusCode),
    Decode(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Net(e) => write!(f, "error sending request for url ({}): {e:?}", self.url),
            Kind::Status(s) => write!(f, "HTTP status error ({s}) for url ({})", self.url),
            Kind::Decode(s) => write!(f, "error decoding response body: {s}"),
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool {
        matches!(self.kind, Kind::Net(NetError::Timeout))
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.kind, Kind::Net(NetError::Connect))
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_body(&self) -> bool {
        matches!(self.kind, Kind::Net(NetError::Body))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl {
    fn as_url(&self) -> String;
}
impl IntoUrl for &str {
    fn as_url(&self) -> String {
        self.to_string()
    }
}
impl IntoUrl for String {
    fn as_url(&self) -> String {
        self.clone()
    }
}
impl IntoUrl for &String {
    fn as_url(&self) -> String {
        self.to_string()
    }
}

pub mod blocking {
    use super::*;

    pub fn get<T: IntoUrl>(u: T) -> Result<Response> {
        Client::new().get(u).send()
    }

    #[derive(Clone, Debug, Default)]
    pub struct Client;
    #[derive(Default)]
    pub struct ClientBuilder;
    impl ClientBuilder {
        pub fn new() -> Self {
            ClientBuilder
        }
        pub fn timeout<T>(self, _: T) -> Self {
            self
        }
        pub fn connect_timeout<T>(self, _: T) -> Self {
            self
        }
        pub fn user_agent<T>(self, _: T) -> Self {
            self
        }
        pub fn default_headers(self, _: HeaderMap) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    impl Client {
        pub fn new() -> Self {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get<T: IntoUrl>(&self, u: T) -> RequestBuilder {
            RequestBuilder { url: u.as_url() }
        }
    }
    #[derive(Debug)]
    pub struct RequestBuilder {
        url: String,
    }
    impl RequestBuilder {
        pub fn headers(self, _: HeaderMap) -> Self {
            self
        }
        pub fn header<K, V>(self, _: K, _: V) -> Self {
            self
        }
        pub fn timeout(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            match net::fetch(&self.url) {
                Ok(r) => Ok(Response { reply: r, pos: 0, url: self.url, headers: HeaderMap::new() }),
                Err(e) => Err(Error { kind: Kind::Net(e), url: self.url }),
            }
        }
    }
    pub struct Response {
        reply: net::Reply,
        pos: usize,
        url: String,
        headers: HeaderMap,
    }
    impl fmt::Debug for Response {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Response({})", self.url)
        }
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode::from_u16(self.reply.status).unwrap()
        }
        pub fn headers(&self) -> &HeaderMap {
            &self.headers
        }
        pub fn content_length(&self) -> Option<u64> {
            if self.reply.short.is_some() {
                None
            } else {
                Some(self.reply.body.len() as u64)
            }
        }
        pub fn error_for_status(self) -> Result<Self> {
            let s = self.status();
            if s.is_client_error() || s.is_server_error() {
                Err(Error { kind: Kind::Status(s), url: self.url })
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            let s = self.status();
            if s.is_client_error() || s.is_server_error() {
                Err(Error { kind: Kind::Status(s), url: self.url.clone() })
            } else {
                Ok(self)
            }
        }
        fn all(&mut self) -> Result<Vec<u8>> {
            let mut v = Vec::new();
            self.read_to_end(&mut v)
                .map_err(|_| Error { kind: Kind::Net(NetError::Body), url: self.url.clone() })?;
            Ok(v)
        }
        pub fn text(mut self) -> Result<String> {
            Ok(String::from_utf8_lossy(&self.all()?).into_owned())
        }
        pub fn bytes(mut self) -> Result<Vec<u8>> {
            self.all()
        }
        pub fn json<T: serde::de::DeserializeOwned>(mut self) -> Result<T> {
            let b = self.all()?;
            serde_json::from_slice(&b).map_err(|e| Error { kind: Kind::Decode(e.to_string()), url: self.url.clone() })
        }
        pub fn copy_to<W: io::Write + ?Sized>(&mut self, w: &mut W) -> Result<u64> {
            io::copy(self, w).map_err(|e| Error { kind: Kind::Decode(e.to_string()), url: self.url.clone() })
        }
    }
    impl Read for Response {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if b.is_empty() {
                return Ok(0);
            }
            simstd::rt::seam("body");
            let end = self.reply.short.unwrap_or(self.reply.body.len());
            let mut n = (end - self.pos).min(b.len());
            if self.reply.chunked {
                n = n.min(1500);
            }
            if let Some(c) = self.reply.cut {
                if self.pos >= c {
                    return Err(io::Error::new(io::ErrorKind::Other, "error reading a body from connection"));
                }
                n = n.min(c - self.pos);
            }
            b[..n].copy_from_slice(&self.reply.body[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
}
