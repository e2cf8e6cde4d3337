//! Stand-in for `reqwest`: requests go to the simulated network.
pub use http::{StatusCode, Method, header, HeaderMap};
use std::time::Duration;
use std::fmt;
use bytes::Bytes;
use simcore::net::*;

#[derive(Debug)]
pub struct Error(String, Option<StatusCode>, u8);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool { self.2 == 1 }
    pub fn is_connect(&self) -> bool { self.2 == 2 }
    pub fn is_status(&self) -> bool { self.1.is_some() }
    pub fn is_decode(&self) -> bool { self.2 == 3 }
    pub fn is_request(&self) -> bool { self.2 == 2 || self.2 == 4 }
    pub fn is_body(&self) -> bool { self.2 == 5 }
    pub fn status(&self) -> Option<StatusCode> { self.1 }
}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Debug, Default)]
pub struct Client { timeout: Option<Duration> }
#[derive(Default)]
pub struct ClientBuilder { c: Client }
impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::default() }
    fn req(&self, method: &'static str, url: impl AsRef<str>) -> RequestBuilder { RequestBuilder { method, url: url.as_ref().into(), body: vec![], headers: vec![], timeout: self.timeout, err: None } }
    pub fn request(&self, m: Method, url: impl AsRef<str>) -> RequestBuilder { self.req(match m.as_str() { "GET" => "GET", "POST" => "POST", "PUT" => "PUT", "DELETE" => "DELETE", "PATCH" => "PATCH", "HEAD" => "HEAD", _ => "OPTIONS" }, url) }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder { self.req("GET", url) }
    pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder { self.req("POST", url) }
    pub fn put(&self, url: impl AsRef<str>) -> RequestBuilder { self.req("PUT", url) }
    pub fn delete(&self, url: impl AsRef<str>) -> RequestBuilder { self.req("DELETE", url) }
    pub fn patch(&self, url: impl AsRef<str>) -> RequestBuilder { self.req("PATCH", url) }
}
impl ClientBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn timeout(mut self, d: Duration) -> Self { self.c.timeout = Some(d); self }
    pub fn connect_timeout(self, _: Duration) -> Self { self }
    pub fn user_agent(self, _: &str) -> Self { self }
    pub fn cookie_store(self, _: bool) -> Self { self }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self { self }
    pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self { self }
    pub fn http1_only(self) -> Self { self }
    pub fn tcp_keepalive(self, _: impl Into<Option<Duration>>) -> Self { self }
    pub fn build(self) -> Result<Client> { Ok(self.c) }
}
pub struct RequestBuilder { method: &'static str, url: String, body: Vec<u8>, headers: Vec<(String, String)>, timeout: Option<Duration>, err: Option<Error> }
fn enc(s: &str) -> String { let mut o = String::new(); for b in s.bytes() { if b.is_ascii_alphanumeric() || b"-._*".contains(&b) { o.push(b as char) } else if b == b' ' { o.push('+') } else { o.push_str(&format!("%{b:02X}")) } } o }
impl RequestBuilder {
    pub fn form<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self { match serde_json::to_value(v) { Ok(serde_json::Value::Object(m)) => { self.body = m.iter().map(|(k, v)| format!("{}={}", enc(k), enc(v.as_str().map(str::to_owned).unwrap_or_else(|| v.to_string()).as_str()))).collect::<Vec<_>>().join("&").into_bytes(); self.headers.push(("content-type".into(), "application/x-www-form-urlencoded".into())) } _ => self.err = Some(Error("form".into(), None, 4)) } self }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, v: &T) -> Self { match serde_json::to_vec(v) { Ok(b) => { self.body = b; self.headers.push(("content-type".into(), "application/json".into())) } Err(e) => self.err = Some(Error(e.to_string(), None, 4)) } self }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self { self.body = b.into(); self }
    pub fn header(mut self, k: impl AsRef<str>, v: impl AsRef<str>) -> Self { self.headers.push((k.as_ref().to_lowercase(), v.as_ref().into())); self }
    pub fn timeout(mut self, d: Duration) -> Self { self.timeout = Some(d); self }
    pub fn query<K: AsRef<str>, V: AsRef<str>>(mut self, q: &[(K, V)]) -> Self { for (k, v) in q { let c = if self.url.contains('?') { '&' } else { '?' }; self.url = format!("{}{c}{}={}", self.url, enc(k.as_ref()), enc(v.as_ref())) } self }
    pub async fn send(self) -> Result<Response> {
        if let Some(e) = self.err { return Err(e) }
        // what the real client refuses to parse is refused here
        if self.url.chars().any(|c| c.is_control()) || !(self.url.starts_with("http://") || self.url.starts_with("https://")) || self.url.splitn(4, '/').nth(2).map(|h| h.is_empty() || h.contains(' ')).unwrap_or(true) { return Err(Error("builder error: invalid url".into(), None, 4)) }
        if !simcore::exec::entered() { panic!("there is no reactor running, must be called from the context of a Tokio 1.x runtime") }
        let slot = Slot::new();
        let req = HttpReq { method: self.method, url: self.url, body: self.body, headers: self.headers, group: simcore::group() };
        simcore::preempt();
        let s2 = slot.clone();
        world(|w| w.http(req, s2));
        let wait = Wait(slot);
        let r = match self.timeout { None => wait.await, Some(d) => match simcore::exec::timeout(d, wait).await { Ok(r) => r, Err(_) => return Err(Error("operation timed out".into(), None, 1)) } };
        match r { Ok(r) => Response::new(r), Err(e) => Err(Error(format!("error sending request: {e:?}"), None, 2)) }
    }
}
pub struct Response { r: HttpResp, h: HeaderMap, s: StatusCode }
impl Response {
    fn new(r: HttpResp) -> Result<Self> {
        let mut h = HeaderMap::new();
        for (k, v) in &r.headers { if let (Ok(k), Ok(v)) = (header::HeaderName::from_bytes(k.as_bytes()), header::HeaderValue::from_bytes(v)) { h.append(k, v); } }
        let s = StatusCode::from_u16(r.status).map_err(|_| Error("bad status".into(), None, 3))?;
        Ok(Response { r, h, s })
    }
    pub fn headers(&self) -> &HeaderMap { &self.h }
    pub fn status(&self) -> StatusCode { self.s }
    pub fn content_length(&self) -> Option<u64> { self.r.body.as_ref().ok().map(|b| b.len() as u64) }
    pub fn error_for_status(self) -> Result<Self> { if self.s.is_client_error() || self.s.is_server_error() { Err(Error(format!("HTTP status {}", self.s), Some(self.s), 0)) } else { Ok(self) } }
    pub fn error_for_status_ref(&self) -> Result<&Self> { if self.s.is_client_error() || self.s.is_server_error() { Err(Error(format!("HTTP status {}", self.s), Some(self.s), 0)) } else { Ok(self) } }
    pub async fn bytes(self) -> Result<Bytes> {
        if self.r.body_delay > 0 { simcore::exec::sleep(Duration::from_nanos(self.r.body_delay)).await }
        self.r.body.map(Bytes::from).map_err(|e| Error(e, None, 5))
    }
    pub fn url(&self) -> &str { "" }
    pub async fn chunk(&mut self) -> Result<Option<Bytes>> { if self.r.body_delay > 0 { simcore::exec::sleep(Duration::from_nanos(std::mem::take(&mut self.r.body_delay))).await } match std::mem::replace(&mut self.r.body, Ok(vec![])) { Ok(b) if b.is_empty() => Ok(None), Ok(b) => Ok(Some(b.into())), Err(e) => Err(Error(e, None, 5)) } }
    pub async fn text(self) -> Result<String> { let b = self.bytes().await?; Ok(String::from_utf8_lossy(&b).into_owned()) }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { let b = self.bytes().await?; serde_json::from_slice(&b).map_err(|e| Error(e.to_string(), None, 3)) }
}
