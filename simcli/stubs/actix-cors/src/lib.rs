//! Stand-in for `actix-cors`: whether other origins may use the server.
pub struct Cors { any: bool, some: Vec<String> }
impl Default for Cors { fn default() -> Self { Cors { any: false, some: vec![] } } }
impl Cors {
    pub fn permissive() -> Self { Cors { any: true, some: vec![] } }
    pub fn allow_any_origin(mut self) -> Self { self.any = true; self }
    pub fn send_wildcard(self) -> Self { self }
    pub fn allowed_origin(mut self, o: &str) -> Self { self.some.push(o.into()); self }
    pub fn allow_any_method(self) -> Self { self }
    pub fn allow_any_header(self) -> Self { self }
    pub fn allowed_methods<T>(self, _: T) -> Self { self }
    pub fn allowed_header<T>(self, _: T) -> Self { self }
    pub fn supports_credentials(self) -> Self { self }
    pub fn max_age<T>(self, _: T) -> Self { self }
    pub fn expose_any_header(self) -> Self { self }
}
fn origin(r: &simterm::Req) -> Option<&str> { r.headers.iter().find(|h| h.0 == "origin").map(|h| h.1.as_str()) }
impl actix_web::dev::Transform for Cors {
    fn headers(&self, r: &simterm::Req) -> Vec<(String, String)> { match origin(r) { Some(o) if self.any || self.some.iter().any(|x| x == o) => vec![("access-control-allow-origin".into(), o.into())], _ => vec![] } }
    fn preflight(&self, r: &simterm::Req) -> bool { origin(r).is_some() }
}
