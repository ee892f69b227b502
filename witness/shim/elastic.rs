// A stand-in for the elasticsearch client: it records the bulk requests and lets a script answer.
use std::cell::RefCell;
pub enum Said { Down, Refused(error::Error), Answers(Vec<Answer>) }
#[derive(Clone, Debug)]
pub struct Answer { pub id: String, pub ok: bool, pub action: client::responses::bulk::Action, pub source: Option<String> }
thread_local! {
    /// from the text of a bulk request to the answer
    pub static SERVER: RefCell<Option<Box<dyn FnMut(&str) -> Said>>> = RefCell::new(None);
}
pub mod client {
    pub mod responses {
        pub mod bulk {
            #[derive(Clone, Copy, Debug, PartialEq)]
            pub enum Action { Index, Create, Update, Delete }
            pub struct OkItem(pub crate::Answer);
            pub struct ErrorItem(pub crate::Answer);
            impl OkItem { pub fn id(&self) -> &str { &self.0.id } pub fn action(&self) -> Action { self.0.action } }
            impl ErrorItem {
                pub fn id(&self) -> &str { &self.0.id }
                pub fn action(&self) -> Action { self.0.action }
            }
            impl std::fmt::Debug for ErrorItem { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no") } }
            impl std::fmt::Display for ErrorItem { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no") } }
            #[derive(Debug)]
            pub struct Cause;
            impl std::fmt::Display for Cause { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "cause") } }
            impl std::error::Error for Cause {}
            impl std::error::Error for ErrorItem {
                fn description(&self) -> &str { "refused" }
                fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { if self.0.source.is_some() { Some(&Cause) } else { None } }
            }
        }
    }
}
pub mod error {
    #[derive(Debug)]
    pub enum ApiError {
        IndexNotFound { index: String }, IndexAlreadyExists { index: String }, DocumentMissing { index: String, ty: String },
        Parsing { line: u64, col: u64, reason: String }, MapperParsing { reason: String }, ActionRequestValidation { reason: String, line: u64 }, Other(String),
    }
    #[derive(Debug)]
    pub struct ClientError;
    impl std::fmt::Display for ClientError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "client") } }
    impl std::error::Error for ClientError { fn description(&self) -> &str { "client" } }
    #[derive(Debug)]
    pub enum Error { Api(ApiError), Client(ClientError) }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "error") } }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
pub mod prelude {
    use crate::client::responses::bulk::*;
    use crate::*;
    pub struct RequestParams;
    impl RequestParams { pub fn new<T: Into<String>>(_: T) -> RequestParams { RequestParams } }
    pub struct SyncClientBuilder;
    impl SyncClientBuilder {
        pub fn from_params(_: RequestParams) -> SyncClientBuilder { SyncClientBuilder }
        pub fn build(self) -> crate::error::Result<SyncClient> { Ok(SyncClient) }
    }
    pub struct SyncClient;
    pub struct BulkRequest(String);
    impl BulkRequest { pub fn new<T: Into<String>>(b: T) -> BulkRequest { BulkRequest(b.into()) } }
    impl SyncClient { pub fn request(&self, r: BulkRequest) -> Request { Request(r.0) } }
    pub struct Request(String);
    impl Request {
        pub fn send(self) -> crate::error::Result<Reply> {
            match SERVER.with(|s| (s.borrow_mut().as_mut().expect("no server"))(&self.0)) {
                Said::Down => Err(crate::error::Error::Client(crate::error::ClientError)),
                Said::Refused(e) => Ok(Reply(Err(e))),
                Said::Answers(a) => Ok(Reply(Ok(a))),
            }
        }
    }
    pub struct Reply(crate::error::Result<Vec<Answer>>);
    pub trait From1: Sized { fn from1(a: Vec<Answer>) -> Self; }
    impl Reply { pub fn into_response<T: From1>(self) -> crate::error::Result<T> { self.0.map(T::from1) } }
    pub struct BulkResponse(Vec<std::result::Result<OkItem, ErrorItem>>);
    impl From1 for BulkResponse {
        fn from1(a: Vec<Answer>) -> BulkResponse { BulkResponse(a.into_iter().map(|x| if x.ok { Ok(OkItem(x)) } else { Err(ErrorItem(x)) }).collect()) }
    }
    pub struct Iter<'a>(std::slice::Iter<'a, std::result::Result<OkItem, ErrorItem>>);
    impl<'a> Iterator for Iter<'a> {
        type Item = std::result::Result<&'a OkItem, &'a ErrorItem>;
        fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|r| r.as_ref()) }
    }
    impl BulkResponse {
        pub fn iter(&self) -> Iter { Iter(self.0.iter()) }
        pub fn is_ok(&self) -> bool { self.0.iter().all(|r| r.is_ok()) }
        pub fn is_err(&self) -> bool { !self.is_ok() }
    }
}
