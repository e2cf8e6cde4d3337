//! Stand-in for `actix-web`: routing, extractors and responses as in the real crate; requests come from the simulation, and each
//! worker is a simulated thread.
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
pub use actix_web_codegen::{get, post, put, delete, patch, head, options, route, routes, scope, connect, trace};
pub mod main_stub {}
pub use web::Resource;
type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
type Datas = HashMap<TypeId, Rc<dyn Any>>;

#[derive(Clone)]
pub struct HttpRequest(Rc<Inner>);
struct Inner { req: simterm::Req, data: Rc<Datas>, params: HashMap<String, String> }
impl HttpRequest {
    pub fn method(&self) -> http::Method { http::Method(self.0.req.method.to_string()) }
    pub fn path(&self) -> &str { self.0.req.path.split('?').next().unwrap_or("") }
    pub fn query_string(&self) -> &str { self.0.req.path.split_once('?').map(|x| x.1).unwrap_or("") }
    pub fn match_info(&self) -> &HashMap<String, String> { &self.0.params }
    pub fn app_data<T: 'static>(&self) -> Option<&T> { self.0.data.get(&TypeId::of::<T>()).and_then(|x| x.downcast_ref::<T>()) }
    fn header(&self, n: &str) -> Option<&str> { self.0.req.headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str()) }
}
#[derive(Debug)]
pub struct Error(http::StatusCode, String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.1) } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub mod error {
    pub use super::Error;
    use super::http::StatusCode;
    macro_rules! errs { ($($n:ident $c:ident)*) => { $( #[allow(non_snake_case)] pub fn $n(e: impl std::fmt::Display) -> Error { super::Error(StatusCode::$c, e.to_string()) } )* } }
    errs! { ErrorBadRequest BAD_REQUEST ErrorNotFound NOT_FOUND ErrorInternalServerError INTERNAL_SERVER_ERROR ErrorForbidden FORBIDDEN ErrorServiceUnavailable SERVICE_UNAVAILABLE ErrorConflict CONFLICT }
}
pub mod http {
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Method(pub String);
    impl Method { pub fn from_bytes(b: &[u8]) -> Result<Method, ()> { Ok(Method(String::from_utf8_lossy(b).into_owned())) } pub fn as_str(&self) -> &str { &self.0 } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct StatusCode(pub u16);
    macro_rules! codes { ($($n:ident $c:literal)*) => { impl StatusCode { $( pub const $n: StatusCode = StatusCode($c); )* pub fn as_u16(self) -> u16 { self.0 } pub fn is_success(self) -> bool { self.0 / 100 == 2 } } } }
    codes! { OK 200 CREATED 201 ACCEPTED 202 NO_CONTENT 204 BAD_REQUEST 400 UNAUTHORIZED 401 FORBIDDEN 403 NOT_FOUND 404 METHOD_NOT_ALLOWED 405 CONFLICT 409 PAYLOAD_TOO_LARGE 413 UNSUPPORTED_MEDIA_TYPE 415 UNPROCESSABLE_ENTITY 422 TOO_MANY_REQUESTS 429 INTERNAL_SERVER_ERROR 500 NOT_IMPLEMENTED 501 SERVICE_UNAVAILABLE 503 }
    pub mod header { pub const CONTENT_TYPE: &str = "content-type"; pub const CONTENT_DISPOSITION: &str = "content-disposition"; pub const CACHE_CONTROL: &str = "cache-control"; pub const ACCEPT: &str = "accept"; pub struct ContentType(pub &'static str); impl ContentType { pub fn json() -> Self { ContentType("application/json") } pub fn plaintext() -> Self { ContentType("text/plain; charset=utf-8") } pub fn html() -> Self { ContentType("text/html; charset=utf-8") } pub fn xml() -> Self { ContentType("text/xml") } } impl ToString for ContentType { fn to_string(&self) -> String { self.0.into() } } impl super::HeaderPair for ContentType { fn pair(self) -> (String, String) { ("content-type".into(), self.0.into()) } } }
    pub trait HeaderPair { fn pair(self) -> (String, String); }
    impl<A: ToString, B: ToString> HeaderPair for (A, B) { fn pair(self) -> (String, String) { (self.0.to_string(), self.1.to_string()) } }
}
use http::{HeaderPair, StatusCode};
#[derive(Clone, Debug)]
pub struct HttpResponse { status: StatusCode, headers: Vec<(String, String)>, body: Vec<u8> }
impl HttpResponse { pub fn status(&self) -> StatusCode { self.status } pub fn build(s: StatusCode) -> HttpResponseBuilder { HttpResponseBuilder(HttpResponse { status: s, headers: vec![], body: vec![] }) } pub fn new(s: StatusCode) -> HttpResponse { HttpResponse { status: s, headers: vec![], body: vec![] } } }
macro_rules! builders { ($($n:ident $c:ident)*) => { #[allow(non_snake_case)] impl HttpResponse { $( pub fn $n() -> HttpResponseBuilder { HttpResponse::build(StatusCode::$c) } )* } } }
builders! { Ok OK Created CREATED Accepted ACCEPTED NoContent NO_CONTENT BadRequest BAD_REQUEST Unauthorized UNAUTHORIZED Forbidden FORBIDDEN NotFound NOT_FOUND MethodNotAllowed METHOD_NOT_ALLOWED Conflict CONFLICT PayloadTooLarge PAYLOAD_TOO_LARGE UnprocessableEntity UNPROCESSABLE_ENTITY UnsupportedMediaType UNSUPPORTED_MEDIA_TYPE TooManyRequests TOO_MANY_REQUESTS InternalServerError INTERNAL_SERVER_ERROR NotImplemented NOT_IMPLEMENTED ServiceUnavailable SERVICE_UNAVAILABLE }
pub struct HttpResponseBuilder(HttpResponse);
impl HttpResponseBuilder {
    pub fn status(&mut self, s: StatusCode) -> &mut Self { self.0.status = s; self }
    pub fn content_type(&mut self, t: impl ToString) -> &mut Self { self.insert_header(("content-type", t)) }
    pub fn append_header(&mut self, h: impl HeaderPair) -> &mut Self { self.0.headers.push(h.pair()); self }
    pub fn insert_header(&mut self, h: impl HeaderPair) -> &mut Self { let h = h.pair(); self.0.headers.retain(|x| !x.0.eq_ignore_ascii_case(&h.0)); self.0.headers.push(h); self }
    pub fn body(&mut self, b: impl body::MessageBody) -> HttpResponse { self.0.body = b.bytes(); std::mem::replace(&mut self.0, HttpResponse::new(StatusCode::OK)) }
    pub fn json(&mut self, v: impl serde::Serialize) -> HttpResponse { if !self.0.headers.iter().any(|h| h.0.eq_ignore_ascii_case("content-type")) { self.0.headers.push(("content-type".into(), "application/json".into())) } self.body(serde_json::to_string(&v).unwrap()) }
    pub fn finish(&mut self) -> HttpResponse { self.body("") }
}
pub mod body {
    pub trait MessageBody { fn bytes(self) -> Vec<u8>; }
    impl MessageBody for String { fn bytes(self) -> Vec<u8> { self.into_bytes() } }
    impl MessageBody for &'static str { fn bytes(self) -> Vec<u8> { self.as_bytes().to_vec() } }
    impl MessageBody for Vec<u8> { fn bytes(self) -> Vec<u8> { self } }
    impl MessageBody for &'static [u8] { fn bytes(self) -> Vec<u8> { self.to_vec() } }
    impl MessageBody for () { fn bytes(self) -> Vec<u8> { vec![] } }
    impl MessageBody for bytes::Bytes { fn bytes(self) -> Vec<u8> { self.to_vec() } }
    pub struct BoxBody;
}
pub trait Responder { fn respond_to(self, r: &HttpRequest) -> HttpResponse; }
impl Responder for HttpResponse { fn respond_to(self, _: &HttpRequest) -> HttpResponse { self } }
impl Responder for HttpResponseBuilder { fn respond_to(mut self, _: &HttpRequest) -> HttpResponse { self.finish() } }
impl Responder for String { fn respond_to(self, _: &HttpRequest) -> HttpResponse { HttpResponse::Ok().content_type("text/plain; charset=utf-8").body(self) } }
impl Responder for &'static str { fn respond_to(self, _: &HttpRequest) -> HttpResponse { HttpResponse::Ok().content_type("text/plain; charset=utf-8").body(self) } }
impl Responder for bytes::Bytes { fn respond_to(self, _: &HttpRequest) -> HttpResponse { HttpResponse::Ok().content_type("application/octet-stream").body(self) } }
impl<T: Responder> Responder for (T, StatusCode) { fn respond_to(self, r: &HttpRequest) -> HttpResponse { let mut x = self.0.respond_to(r); x.status = self.1; x } }
impl<T: serde::Serialize> Responder for web::Json<T> { fn respond_to(self, _: &HttpRequest) -> HttpResponse { HttpResponse::Ok().json(self.0) } }
impl<T: Responder, E: Into<Error>> Responder for std::result::Result<T, E> { fn respond_to(self, r: &HttpRequest) -> HttpResponse { match self { Ok(x) => x.respond_to(r), Err(e) => { let e = e.into(); HttpResponse::build(e.0).body(e.1) } } } }
impl<T: Responder> Responder for Option<T> { fn respond_to(self, r: &HttpRequest) -> HttpResponse { match self { Some(x) => x.respond_to(r), None => HttpResponse::NotFound().finish() } } }
pub trait FromRequest: Sized { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error>; }
impl FromRequest for HttpRequest { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { Ok(r.clone()) } }
impl FromRequest for () { fn from_request(_: &HttpRequest) -> std::result::Result<Self, Error> { Ok(()) } }
fn payload(r: &HttpRequest) -> std::result::Result<bytes::Bytes, Error> {
    let limit = r.app_data::<web::PayloadConfig>().map(|c| c.0).unwrap_or(262_144);
    if r.0.req.body.len() > limit { return Err(Error(StatusCode::PAYLOAD_TOO_LARGE, "Payload reached size limit.".into())) }
    Ok(bytes::Bytes::copy_from_slice(&r.0.req.body))
}
impl FromRequest for bytes::Bytes { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { payload(r) } }
impl FromRequest for String { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { String::from_utf8(payload(r)?.to_vec()).map_err(|_| Error(StatusCode::BAD_REQUEST, "not utf8".into())) } }
impl<T: 'static + ?Sized> FromRequest for web::Data<T> { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { r.app_data::<web::Data<T>>().cloned().ok_or_else(|| Error(StatusCode::INTERNAL_SERVER_ERROR, "Requested application data is not configured correctly.".into())) } }
impl<T: serde::de::DeserializeOwned> FromRequest for web::Json<T> { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { if !r.header("content-type").unwrap_or("").contains("json") { return Err(Error(StatusCode::BAD_REQUEST, "Content type error".into())) } serde_json::from_slice(&payload(r)?).map(web::Json).map_err(|e| Error(StatusCode::BAD_REQUEST, e.to_string())) } }
impl<T: FromRequest> FromRequest for Option<T> { fn from_request(r: &HttpRequest) -> std::result::Result<Self, Error> { Ok(T::from_request(r).ok()) } }
pub trait Handler<A>: Clone + 'static { fn call(&self, r: &HttpRequest) -> Fut<HttpResponse>; }
macro_rules! handlers { ($(($($a:ident),*))*) => { $(
    impl<F, R, $($a),*> Handler<($($a,)*)> for F where F: Fn($($a),*) -> R + Clone + 'static, R: Future + 'static, R::Output: Responder, $($a: FromRequest + 'static),* {
        #[allow(non_snake_case, unused)]
        fn call(&self, r: &HttpRequest) -> Fut<HttpResponse> {
            $( let $a = match $a::from_request(r) { Ok(x) => x, Err(e) => { let x = HttpResponse::build(e.0).body(e.1); return Box::pin(async move { x }) } }; )*
            let (f, r) = (self.clone(), r.clone());
            Box::pin(async move { f($($a),*).await.respond_to(&r) })
        }
    } )* } }
handlers! { () (A) (A, B) (A, B, D) (A, B, D, E) (A, B, D, E, G) }
pub mod guard {
    pub trait Guard { fn check(&self, m: &str) -> bool; }
    pub struct M(Vec<String>);
    impl Guard for M { fn check(&self, m: &str) -> bool { self.0.iter().any(|x| x == m) } }
    impl M { pub fn or(mut self, o: M) -> M { self.0.extend(o.0); self } }
    macro_rules! guards { ($($n:ident $s:literal)*) => { $( #[allow(non_snake_case)] pub fn $n() -> M { M(vec![$s.into()]) } )* } }
    guards! { Get "GET" Post "POST" Put "PUT" Delete "DELETE" Patch "PATCH" Head "HEAD" Options "OPTIONS" Connect "CONNECT" Trace "TRACE" }
    #[allow(non_snake_case)] pub fn Any(m: M) -> M { m }
    #[allow(non_snake_case)] pub fn Method(m: super::http::Method) -> M { M(vec![m.0]) }
    pub fn fn_guard<F: Fn(&()) -> bool>(_: F) -> M { M(vec![]) }
}
type Call = Rc<dyn Fn(&HttpRequest) -> Fut<HttpResponse>>;
pub mod web {
    use super::*;
    pub use bytes::{Bytes, BytesMut, Buf, BufMut};
    pub struct Data<T: ?Sized>(Arc<T>);
    impl<T> Data<T> { pub fn new(v: T) -> Self { Data(Arc::new(v)) } }
    impl<T: ?Sized> Data<T> { pub fn get_ref(&self) -> &T { &self.0 } pub fn into_inner(self) -> Arc<T> { self.0 } }
    impl<T: ?Sized> Clone for Data<T> { fn clone(&self) -> Self { Data(self.0.clone()) } }
    impl<T: ?Sized> From<Arc<T>> for Data<T> { fn from(a: Arc<T>) -> Self { Data(a) } }
    impl<T: ?Sized> std::ops::Deref for Data<T> { type Target = Arc<T>; fn deref(&self) -> &Arc<T> { &self.0 } }
    #[derive(Clone, Debug)] pub struct PayloadConfig(pub(crate) usize);
    impl PayloadConfig { pub fn new(n: usize) -> Self { PayloadConfig(n) } pub fn limit(self, n: usize) -> Self { PayloadConfig(n) } }
    impl Default for PayloadConfig { fn default() -> Self { PayloadConfig(262_144) } }
    #[derive(Clone, Debug)] pub struct JsonConfig(#[allow(dead_code)] usize);
    impl Default for JsonConfig { fn default() -> Self { JsonConfig(0) } }
    impl JsonConfig { pub fn limit(self, n: usize) -> Self { JsonConfig(n) } }
    #[derive(Clone, Debug)] pub struct Json<T>(pub T);
    impl<T> Json<T> { pub fn into_inner(self) -> T { self.0 } }
    impl<T> std::ops::Deref for Json<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
    pub struct Resource { pub(crate) path: String, pub(crate) routes: Vec<Route>, guards: Vec<guard::M> }
    impl Resource {
        pub fn new(p: impl ToString) -> Self { Resource { path: p.to_string(), routes: vec![], guards: vec![] } }
        pub fn name(self, _: &str) -> Self { self }
        pub fn guard(mut self, g: guard::M) -> Self { self.guards.push(g); self }
        pub fn to<A, H: Handler<A>>(mut self, h: H) -> Self { self.routes.push(Route { guards: vec![], call: Some(Rc::new(move |r| h.call(r))) }); self }
        pub fn route(mut self, r: Route) -> Self { self.routes.push(r); self }
    }
    impl dev::HttpServiceFactory for Resource { fn register(self, c: &mut dev::AppService) { let g = Rc::new(self.guards); for r in self.routes { c.0.push((self.path.clone(), g.clone(), r)) } } }
    pub fn resource(p: impl ToString) -> Resource { Resource::new(p) }
    pub struct Route { pub(crate) guards: Vec<guard::M>, pub(crate) call: Option<Call> }
    impl Route { pub fn to<A, H: Handler<A>>(mut self, h: H) -> Self { self.call = Some(Rc::new(move |r| h.call(r))); self } pub fn guard(mut self, g: guard::M) -> Self { self.guards.push(g); self } }
    macro_rules! routes { ($($n:ident $g:ident)*) => { $( pub fn $n() -> Route { Route { guards: vec![guard::$g()], call: None } } )* } }
    routes! { get Get post Post put Put delete Delete patch Patch }
    pub fn to<A, H: Handler<A>>(h: H) -> Route { Route { guards: vec![], call: None }.to(h) }
    pub struct ServiceConfig { pub(crate) s: dev::AppService, pub(crate) d: Datas }
    impl ServiceConfig {
        pub fn service(&mut self, f: impl dev::HttpServiceFactory) -> &mut Self { f.register(&mut self.s); self }
        pub fn route(&mut self, p: &str, r: Route) -> &mut Self { dev::HttpServiceFactory::register(Resource::new(p).route(r), &mut self.s); self }
        pub fn app_data<T: 'static>(&mut self, d: T) -> &mut Self { self.d.insert(TypeId::of::<T>(), Rc::new(d)); self }
    }
    pub struct Scope { path: String, list: dev::AppService }
    pub fn scope(p: &str) -> Scope { Scope { path: p.trim_end_matches('/').to_string(), list: dev::AppService(vec![]) } }
    impl Scope { pub fn service(mut self, f: impl dev::HttpServiceFactory) -> Self { f.register(&mut self.list); self } pub fn route(self, p: &str, r: Route) -> Self { self.service(Resource::new(p).route(r)) } }
    impl dev::HttpServiceFactory for Scope { fn register(self, c: &mut dev::AppService) { for (p, g, r) in self.list.0 { c.0.push((format!("{}{p}", self.path), g, r)) } } }
}
pub mod dev {
    use super::*;
    pub struct AppService(pub(crate) Vec<(String, Rc<Vec<guard::M>>, web::Route)>);
    pub trait HttpServiceFactory { fn register(self, c: &mut AppService); }
    /// Middleware: what it adds to a response.
    pub trait Transform: 'static { fn headers(&self, r: &simterm::Req) -> Vec<(String, String)>; fn preflight(&self, _: &simterm::Req) -> bool { false } }
    pub struct Server(pub(crate) Fut<std::io::Result<()>>);
    impl Future for Server { type Output = std::io::Result<()>; fn poll(mut self: Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { self.0.as_mut().poll(c) } }
    #[derive(Clone)] pub struct ServerHandle;
    impl Server { pub fn handle(&self) -> ServerHandle { ServerHandle } }
}
pub mod middleware {
    pub struct Logger; impl Default for Logger { fn default() -> Self { Logger } } impl super::dev::Transform for Logger { fn headers(&self, _: &simterm::Req) -> Vec<(String, String)> { vec![] } }
    pub struct DefaultHeaders(Vec<(String, String)>);
    impl DefaultHeaders { pub fn new() -> Self { DefaultHeaders(vec![]) } pub fn add(mut self, h: impl super::http::HeaderPair) -> Self { self.0.push(h.pair()); self } }
    impl super::dev::Transform for DefaultHeaders { fn headers(&self, _: &simterm::Req) -> Vec<(String, String)> { self.0.clone() } }
}
pub struct App { s: dev::AppService, d: Datas, w: Vec<Box<dyn dev::Transform>>, other: Option<web::Route> }
impl App {
    pub fn new() -> Self { App { s: dev::AppService(vec![]), d: HashMap::new(), w: vec![], other: None } }
    pub fn wrap(mut self, t: impl dev::Transform) -> Self { self.w.push(Box::new(t)); self }
    pub fn app_data<T: 'static>(mut self, d: T) -> Self { self.d.insert(TypeId::of::<T>(), Rc::new(d)); self }
    pub fn data<T: 'static>(self, d: T) -> Self { self.app_data(web::Data::new(d)) }
    pub fn service(mut self, f: impl dev::HttpServiceFactory) -> Self { f.register(&mut self.s); self }
    pub fn route(self, p: &str, r: web::Route) -> Self { self.service(web::Resource::new(p).route(r)) }
    pub fn default_service(mut self, r: web::Route) -> Self { self.other = Some(r); self }
    pub fn configure(mut self, f: impl FnOnce(&mut web::ServiceConfig)) -> Self { let mut c = web::ServiceConfig { s: self.s, d: self.d }; f(&mut c); self.s = c.s; self.d = c.d; self }
}
struct Built { s: Vec<(String, Rc<Vec<guard::M>>, web::Route)>, d: Rc<Datas>, w: Vec<Box<dyn dev::Transform>>, other: Option<web::Route> }
fn matches(pat: &str, path: &str) -> Option<HashMap<String, String>> {
    let (a, b): (Vec<&str>, Vec<&str>) = (pat.split('/').collect(), path.split('/').collect());
    if a.len() != b.len() { return None }
    let mut m = HashMap::new();
    for (x, y) in a.iter().zip(&b) { if let Some(n) = x.strip_prefix('{').and_then(|x| x.strip_suffix('}')) { m.insert(n.to_string(), y.to_string()); } else if x != y { return None } }
    Some(m)
}
async fn handle(app: Rc<Built>, req: simterm::Req) {
    use guard::Guard;
    let (t0, n0, id) = (simcore::now(), simterm::tick(), req.id);
    simcore::preempt();
    let path = req.path.split('?').next().unwrap_or("").to_string();
    let mut extra: Vec<(String, String)> = app.w.iter().flat_map(|w| w.headers(&req)).collect();
    let pre = req.method == "OPTIONS" && app.w.iter().any(|w| w.preflight(&req));
    let mut known = false;
    let mut hit = None;
    if !pre {
        for (p, g, r) in &app.s {
            let Some(params) = matches(p, &path) else { continue };
            if !g.iter().all(|g| g.check(req.method)) { continue }
            known = true;
            if !r.guards.iter().all(|g| g.check(req.method)) { continue }
            if let Some(c) = &r.call { hit = Some((c.clone(), params)); break }
        }
        if hit.is_none() { if let Some(c) = app.other.as_ref().and_then(|r| r.call.clone()) { hit = Some((c, HashMap::new())) } }
    }
    let mut resp = match hit {
        Some((c, params)) => { let r = HttpRequest(Rc::new(Inner { req, data: app.d.clone(), params })); c(&r).await }
        None => HttpResponse::new(if pre { StatusCode::OK } else if known { StatusCode::METHOD_NOT_ALLOWED } else { StatusCode::NOT_FOUND }),
    };
    resp.headers.append(&mut extra);
    simcore::preempt();
    let n1 = simterm::tick();
    simterm::answered(simterm::Handled { id, t0, t1: simcore::now(), n0, n1, resp: simterm::Resp { status: resp.status.0, headers: resp.headers, body: resp.body } });
}
pub trait ToAddrs { fn port(&self) -> (String, u16); }
impl ToAddrs for (&str, u16) { fn port(&self) -> (String, u16) { (self.0.into(), self.1) } }
impl ToAddrs for (String, u16) { fn port(&self) -> (String, u16) { self.clone() } }
impl ToAddrs for &str { fn port(&self) -> (String, u16) { self.rsplit_once(':').map(|(a, b)| (a.into(), b.parse().unwrap_or(0))).unwrap_or((self.to_string(), 0)) } }
impl ToAddrs for String { fn port(&self) -> (String, u16) { self.as_str().port() } }
impl ToAddrs for std::net::SocketAddr { fn port(&self) -> (String, u16) { (self.ip().to_string(), std::net::SocketAddr::port(self)) } }
pub struct HttpServer<F> { f: F, workers: usize }
impl<F: Fn() -> App + Clone + 'static> HttpServer<F> {
    pub fn new(f: F) -> Self { HttpServer { f, workers: 4 } }
    pub fn workers(mut self, n: usize) -> Self { self.workers = n.max(1); self }
    pub fn disable_signals(self) -> Self { self }
    pub fn shutdown_timeout(self, _: u64) -> Self { self }
    pub fn client_request_timeout(self, _: std::time::Duration) -> Self { self }
    pub fn keep_alive<T>(self, _: T) -> Self { self }
    pub fn max_connections(self, _: usize) -> Self { self }
    pub fn backlog(self, _: u32) -> Self { self }
    pub fn bind(self, a: impl ToAddrs) -> std::io::Result<Self> {
        simcore::preempt();
        let (h, p) = a.port();
        if simterm::term(|t| t.busy_ports.contains(&p)) { return Err(std::io::Error::from(std::io::ErrorKind::AddrInUse)) }
        simterm::log(simterm::Done::Bound(h, p, self.workers));
        Ok(self)
    }
    pub fn run(self) -> dev::Server {
        let HttpServer { f, workers } = self;
        let group = simcore::group();
        for w in 0..workers {
            let f = f.clone();
            simcore::spawn(&format!("web worker {w}"), move || {
                simcore::set_group(group);
                let app = f();
                drop(f);
                let app = Rc::new(Built { s: app.s.0, d: Rc::new(app.d), w: app.w, other: app.other });
                simcore::exec::block_on(0, async move { loop { let r = simterm::NextReq.await; simcore::exec::spawn_task(handle(app.clone(), r)); } })
            });
        }
        simterm::term(|t| t.servers += 1);
        dev::Server(Box::pin(async move { let _keep = f; std::future::pending::<()>().await; Ok(()) }))
    }
}
pub mod rt { pub fn spawn<F: std::future::Future + 'static>(f: F) where F::Output: 'static { let _ = simcore::exec::spawn_task(f); } pub mod time { pub use simcore::exec::sleep; } }
