// length-prefixed framing: the stream under a buffered reader, and what its bytes mean
pub mod mio { pub mod net { 
    /// `written`: everything the peer is sent
    #[verifier::external_body]
    pub struct TcpStream { _p: () }
    impl TcpStream { pub uninterp spec fn written(&self) -> vstd::prelude::Seq<u8>; }
} }
pub mod io {
    #[derive(Clone, Copy)]
    pub enum ErrorKind { WouldBlock, Interrupted, UnexpectedEof, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        pub uninterp spec fn of(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.of() { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &ErrorKind) -> bool { *self == *other }
    }
    impl PartialEq for ErrorKind {
        fn eq(&self, other: &ErrorKind) -> (r: bool) {
            match (*self, *other) {
                (ErrorKind::WouldBlock, ErrorKind::WouldBlock) | (ErrorKind::Interrupted, ErrorKind::Interrupted)
                | (ErrorKind::UnexpectedEof, ErrorKind::UnexpectedEof) | (ErrorKind::Other, ErrorKind::Other) => true,
                _ => false,
            }
        }
    }
    /// `taken`: every byte handed out so far; `ended`: the peer has closed and all it sent is taken
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct BufReader<R> { _p: std::marker::PhantomData<R> }
    impl<R> BufReader<R> {
        pub uninterp spec fn taken(&self) -> vstd::prelude::Seq<u8>;
        pub uninterp spec fn ended(&self) -> bool;
        #[verifier::external_body]
        pub fn new(r: R) -> (b: BufReader<R>) ensures b.taken().len() == 0 { unimplemented!() }
    }
}
pub open spec fn be4(s: Seq<u8>) -> nat {
    (s[0] as nat) * 16777216 + (s[1] as nat) * 65536 + (s[2] as nat) * 256 + s[3] as nat
}
