// texts built up by appending, and the texts of values
pub type Text = Seq<char>;
pub broadcast proof fn lemma_cat(a: Text, b: Text, c: Text)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_cat0(a: Text)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
pub broadcast group cats { lemma_cat, lemma_cat0 }
/// what can be given for a text
pub trait Textual { spec fn tx(&self) -> Text; }
impl<'a> Textual for &'a str { open spec fn tx(&self) -> Text { (*self)@ } }
impl<'a> Textual for &'a String { open spec fn tx(&self) -> Text { (*self)@ } }
impl Textual for String { open spec fn tx(&self) -> Text { self@ } }
/// String's methods
pub trait Buf {
    spec fn cur(&self) -> Text;
    /// push_str
    fn put<S: Textual>(&mut self, t: S) ensures final(self).cur() == old(self).cur() + t.tx();
    /// push
    fn put_char(&mut self, c: char) ensures final(self).cur() == old(self).cur() + seq![c];
    /// clear
    fn wipe(&mut self) ensures final(self).cur() == Seq::<char>::empty();
}
impl Buf for String {
    open spec fn cur(&self) -> Text { self@ }
    #[verifier::external_body]
    fn put<S: Textual>(&mut self, t: S) { unimplemented!() }
    #[verifier::external_body]
    fn put_char(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body]
    fn wipe(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub fn blank() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// ToString
pub trait Shown {
    spec fn text(&self) -> Text;
    fn shown(&self) -> (r: String) ensures r@ == self.text();
}
pub uninterp spec fn text_f64(x: f64) -> Text;
pub uninterp spec fn text_int(x: int) -> Text;
impl Shown for f64 {
    open spec fn text(&self) -> Text { text_f64(*self) }
    #[verifier::external_body]
    fn shown(&self) -> (r: String) { unimplemented!() }
}
impl Shown for i64 {
    open spec fn text(&self) -> Text { text_int(*self as int) }
    #[verifier::external_body]
    fn shown(&self) -> (r: String) { unimplemented!() }
}
impl Shown for usize {
    open spec fn text(&self) -> Text { text_int(*self as int) }
    #[verifier::external_body]
    fn shown(&self) -> (r: String) { unimplemented!() }
}
impl Shown for str {
    open spec fn text(&self) -> Text { self@ }
    #[verifier::external_body]
    fn shown(&self) -> (r: String) { unimplemented!() }
}
/*@ rewrites
rw `$b.push_str($*t)` => `$b.put($*t)`
rw `String::new()` => `blank()`
rw `String::with_capacity($*n)` => `blank()`
@*/
