// A stand-in for the HTTP client: it records what is posted and answers from a script.
use std::cell::RefCell;
use std::collections::VecDeque;
thread_local! {
    /// what the next posts are answered with: None is a failure to reach the server
    pub static SCRIPT: RefCell<VecDeque<Option<u16>>> = RefCell::new(VecDeque::new());
    pub static POSTED: RefCell<Vec<(String, String)>> = RefCell::new(Vec::new());
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "down") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Client;
pub struct ClientBuilder;
impl Client {
    pub fn new() -> Client { Client }
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub fn post<U: ToString>(&self, u: U) -> RequestBuilder { RequestBuilder { uri: u.to_string(), body: String::new() } }
}
impl ClientBuilder {
    pub fn gzip(&mut self, _: bool) -> &mut ClientBuilder { self }
    pub fn build(&mut self) -> Result<Client> { Ok(Client) }
}
pub mod header {
    pub struct Connection;
    impl Connection { pub fn keep_alive() -> Connection { Connection } pub fn close() -> Connection { Connection } }
}
pub struct RequestBuilder { uri: String, body: String }
impl RequestBuilder {
    pub fn header<H>(&mut self, _: H) -> &mut RequestBuilder { self }
    pub fn body<T: Into<String>>(&mut self, b: T) -> &mut RequestBuilder { self.body = b.into(); self }
    pub fn send(&mut self) -> Result<Response> {
        POSTED.with(|p| p.borrow_mut().push((self.uri.clone(), self.body.clone())));
        if POSTED.with(|p| p.borrow().len()) > 10_000 { panic!("posts without end"); }
        match SCRIPT.with(|s| s.borrow_mut().pop_front()) { Some(Some(c)) => Ok(Response(c)), Some(None) => Err(Error), None => Ok(Response(204)) }
    }
}
pub struct Response(u16);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct StatusCode(u16);
impl Response { pub fn status(&self) -> StatusCode { StatusCode(self.0) } }
impl StatusCode {
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { self.0 / 100 == 2 }
    pub fn is_redirection(&self) -> bool { self.0 / 100 == 3 }
    pub fn is_client_error(&self) -> bool { self.0 / 100 == 4 }
    pub fn is_server_error(&self) -> bool { self.0 / 100 == 5 }
}
