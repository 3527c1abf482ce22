//! The asynchronous client of reqwest 0.11 over the simulated network.
use std::{fmt, future::Future, time::Duration};

pub use http::{header, HeaderMap, Method, StatusCode, Version};
use http::{HeaderName, HeaderValue};
use serde::{de::DeserializeOwned, Serialize};
use simrt::net::{HttpError, HttpReq};
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq)]
enum Kind {
    Builder,
    Request { connect: bool, timeout: bool },
    Status(StatusCode),
    Body,
    Decode,
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
    source: Option<Box<dyn std::error::Error + Send + Sync>>,
}
#[derive(Debug)]
struct Text(String);
impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Text {}

impl Error {
    fn new(kind: Kind, url: Option<&Url>, text: impl Into<String>) -> Error {
        let text: String = text.into();
        Error {
            kind,
            url: url.cloned(),
            source: (!text.is_empty()).then(|| Box::new(Text(text)) as _),
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn with_url(mut self, url: Url) -> Self {
        self.url = Some(url);
        self
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self.kind, Kind::Request { timeout: true, .. })
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request { .. })
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.kind, Kind::Request { connect: true, .. })
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Builder => f.write_str("builder error")?,
            Kind::Request { .. } => f.write_str("error sending request")?,
            Kind::Body => f.write_str("request or response body error")?,
            Kind::Decode => f.write_str("error decoding response body")?,
            Kind::Status(s) => {
                let p = if s.is_client_error() { "HTTP status client error" } else { "HTTP status server error" };
                write!(f, "{p} ({s})")?
            }
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({u})")?;
        }
        if let Some(s) = &self.source {
            write!(f, ": {s}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("reqwest::Error");
        d.field("kind", &self.kind);
        if let Some(u) = &self.url {
            d.field("url", &u.as_str());
        }
        if let Some(s) = &self.source {
            d.field("source", s);
        }
        d.finish()
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|s| &**s as _)
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        Ok(self.clone())
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, None, e.to_string()))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Debug, Clone, Default)]
pub struct Body(Vec<u8>);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
impl From<Vec<u8>> for Body {
    fn from(v: Vec<u8>) -> Self {
        Body(v)
    }
}
impl From<bytes::Bytes> for Body {
    fn from(v: bytes::Bytes) -> Self {
        Body(v.to_vec())
    }
}
impl From<String> for Body {
    fn from(v: String) -> Self {
        Body(v.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(v: &'static str) -> Self {
        Body(v.as_bytes().to_vec())
    }
}
impl From<&'static [u8]> for Body {
    fn from(v: &'static [u8]) -> Self {
        Body(v.to_vec())
    }
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Request {
        Request { method, url, headers: HeaderMap::new(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn try_clone(&self) -> Option<Request> {
        Some(Request {
            method: self.method.clone(),
            url: self.url.clone(),
            headers: self.headers.clone(),
            body: self.body.clone(),
            timeout: self.timeout,
        })
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    client: Client,
    request: Result<Request>,
}
impl RequestBuilder {
    pub fn from_parts(client: Client, request: Request) -> RequestBuilder {
        RequestBuilder { client, request: Ok(request) }
    }
    fn edit(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> Self {
        if let Ok(r) = self.request.as_mut() {
            if let Err(e) = f(r) {
                self.request = Err(e);
            }
        }
        self
    }
    pub fn header<K, V>(self, k: K, v: V) -> RequestBuilder
    where
        K: TryInto<HeaderName>,
        V: TryInto<HeaderValue>,
    {
        self.edit(|r| {
            let k = k.try_into().map_err(|_| Error::new(Kind::Builder, None, "invalid HTTP header name"))?;
            let v = v.try_into().map_err(|_| Error::new(Kind::Builder, None, "failed to parse header value"))?;
            r.headers.append(k, v);
            Ok(())
        })
    }
    pub fn headers(self, h: HeaderMap) -> RequestBuilder {
        self.edit(|r| {
            for (k, v) in h.iter() {
                r.headers.insert(k.clone(), v.clone());
            }
            Ok(())
        })
    }
    pub fn bearer_auth(self, t: impl fmt::Display) -> RequestBuilder {
        self.header("authorization", format!("Bearer {t}"))
    }
    pub fn body(self, b: impl Into<Body>) -> RequestBuilder {
        self.edit(|r| {
            r.body = Some(b.into());
            Ok(())
        })
    }
    pub fn timeout(self, d: Duration) -> RequestBuilder {
        self.edit(|r| {
            r.timeout = Some(d);
            Ok(())
        })
    }
    pub fn json<T: Serialize + ?Sized>(self, v: &T) -> RequestBuilder {
        self.edit(|r| {
            let b = serde_json::to_vec(v).map_err(|e| Error::new(Kind::Builder, None, e.to_string()))?;
            r.headers
                .entry("content-type")
                .or_insert(HeaderValue::from_static("application/json"));
            r.body = Some(Body(b));
            Ok(())
        })
    }
    pub fn query<T: Serialize + ?Sized>(self, v: &T) -> RequestBuilder {
        self.edit(|r| {
            let v = serde_json::to_value(v).map_err(|e| Error::new(Kind::Builder, None, e.to_string()))?;
            let text = |v: &serde_json::Value| match v {
                serde_json::Value::String(s) => s.clone(),
                o => o.to_string(),
            };
            let mut q = r.url.query_pairs_mut();
            match &v {
                serde_json::Value::Object(m) => {
                    for (k, v) in m {
                        q.append_pair(k, &text(v));
                    }
                }
                serde_json::Value::Array(a) => {
                    for p in a {
                        q.append_pair(&text(&p[0]), &text(&p[1]));
                    }
                }
                _ => {}
            }
            Ok(())
        })
    }
    pub fn try_clone(&self) -> Option<RequestBuilder> {
        self.request
            .as_ref()
            .ok()
            .and_then(|r| r.try_clone())
            .map(|r| RequestBuilder { client: self.client.clone(), request: Ok(r) })
    }
    pub fn build(self) -> Result<Request> {
        self.request
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> {
        let RequestBuilder { client, request } = self;
        async move { client.execute(request?).await }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Client {
    timeout: Option<Duration>,
    headers: HeaderMap,
}
#[derive(Debug, Default)]
pub struct ClientBuilder {
    client: Client,
}
impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.client.timeout = Some(d);
        self
    }
    pub fn connect_timeout(self, _d: Duration) -> Self {
        self
    }
    pub fn user_agent<V>(self, _v: V) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _n: usize) -> Self {
        self
    }
    pub fn default_headers(mut self, h: HeaderMap) -> Self {
        self.client.headers = h;
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.client)
    }
}

impl Client {
    pub fn new() -> Client {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: url.into_url().map(|u| Request::new(method, u)) }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub fn execute(&self, request: Request) -> impl Future<Output = Result<Response>> {
        let me = self.clone();
        async move {
            let Request { method, url, mut headers, body, timeout } = request;
            for (k, v) in me.headers.iter() {
                headers.entry(k.clone()).or_insert(v.clone());
            }
            let req = HttpReq {
                epoch: 0,
                method: method.to_string(),
                url: url.to_string(),
                headers: headers
                    .iter()
                    .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
                    .collect(),
                body: body.map(|b| b.0).unwrap_or_default(),
            };
            let mut exchange = simrt::current().net.http(req);
            let out = match timeout.or(me.timeout) {
                None => Some(exchange.await),
                Some(d) => {
                    let mut alarm = simrt::task::sleep(d.as_micros() as u64);
                    std::future::poll_fn(move |cx| {
                        use std::{pin::Pin, task::Poll};
                        if let Poll::Ready(v) = Pin::new(&mut exchange).poll(cx) {
                            return Poll::Ready(Some(v));
                        }
                        Pin::new(&mut alarm).poll(cx).map(|_| None)
                    })
                    .await
                }
            };
            let request_error =
                |connect, timeout, text| Error::new(Kind::Request { connect, timeout }, Some(&url), text);
            match out {
                None => Err(request_error(false, true, "operation timed out".to_string())),
                Some(Err(HttpError::Connect(t))) => Err(request_error(true, false, t)),
                Some(Err(HttpError::Broken(t))) => Err(request_error(false, false, t)),
                Some(Err(HttpError::Body(t))) => Ok(Response {
                    url,
                    status: StatusCode::OK,
                    headers: HeaderMap::new(),
                    body: Err(t),
                }),
                Some(Ok(r)) => {
                    let mut h = HeaderMap::new();
                    for (k, v) in &r.headers {
                        if let (Ok(k), Ok(v)) = (HeaderName::try_from(k.as_str()), HeaderValue::try_from(v.as_str())) {
                            h.append(k, v);
                        }
                    }
                    Ok(Response {
                        url,
                        status: StatusCode::from_u16(r.status).unwrap(),
                        headers: h,
                        body: Ok(r.body),
                    })
                }
            }
        }
    }
}

#[derive(Debug)]
pub struct Response {
    url: Url,
    status: StatusCode,
    headers: HeaderMap,
    body: std::result::Result<Vec<u8>, String>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn content_length(&self) -> Option<u64> {
        self.body.as_ref().ok().map(|b| b.len() as u64)
    }
    pub async fn bytes(self) -> Result<bytes::Bytes> {
        self.body
            .map(bytes::Bytes::from)
            .map_err(|t| Error::new(Kind::Body, Some(&self.url), t))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let url = self.url.clone();
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, Some(&url), e.to_string()))
    }
    pub fn error_for_status(self) -> Result<Response> {
        match self.error_for_status_ref() {
            Ok(_) => Ok(self),
            Err(e) => Err(e),
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error::new(Kind::Status(self.status), Some(&self.url), ""))
        } else {
            Ok(self)
        }
    }
}

pub async fn get<U: IntoUrl>(url: U) -> Result<Response> {
    Client::new().get(url).send().await
}
