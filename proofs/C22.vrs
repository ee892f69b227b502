// C22: tokens and delays.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod mio {
    pub struct Token(pub usize);
    pub trait Evented { }
}
pub mod slab {
    use super::*;
    /// a slab keyed by small numbers; while nothing is removed the keys are 0, 1, 2, ...
    #[verifier::external_body]
    #[verifier::reject_recursive_types(E)]
    pub struct Slab<E> { _p: std::marker::PhantomData<E> }
    impl<E> View for Slab<E> {
        type V = Seq<E>;
        uninterp spec fn view(&self) -> Seq<E>;
    }
    impl<E> Slab<E> {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: Slab<E>) ensures r@.len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, e: E) -> (r: usize) ensures r == old(self)@.len(), final(self)@ == old(self)@.push(e) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn at(&self, i: usize) -> (r: &E) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
        #[verifier::external_body]
        pub fn at_mut(&mut self, i: usize) -> (r: &mut E) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
    }
}
/*@ rewrites
rw `mio::Token::from($*i)` => `mio::Token($*i)`
rw `&self.tokens[$*i]` => `self.tokens.at($*i)`
rw `&mut self.tokens[$*i]` => `self.tokens.at_mut($*i)`
rw `constants::SYSTEM` => `SYSTEM`
@*/
/*@ item src/constants.rs const SYSTEM
@*/
/*@ fn src/util.rs token_to_idx
ret: r
spec:
    ensures r == token.0
@*/
/*@ item src/util.rs struct TokenSlab
attr: #[verifier::reject_recursive_types(E)]
@*/
impl<E: mio::Evented> TokenSlab<E> {
    /// what is registered, in order of registration
    pub closed spec fn held(&self) -> Seq<E> { self.tokens@ }
    pub closed spec fn ok(&self) -> bool { self.token_count == self.tokens@.len() }
/*@ fn src/util.rs TokenSlab.new
ret: r
spec:
    ensures r.ok(), r.held().len() == 0
@*/
/*@ fn src/util.rs TokenSlab.count
ret: r
spec:
    requires self.ok()
    ensures r == self.held().len()
@*/
/*@ fn src/util.rs TokenSlab.insert
ret: r
spec:
    requires old(self).ok(), old(self).held().len() < usize::MAX
    ensures
        final(self).ok(), final(self).held() == old(self).held().push(thing),
        // the number of those registered before, hence no token of theirs
        r.0 == old(self).held().len(),
        old(self).held().len() < 2048 ==> r != SYSTEM,
@*/
/*@ fn src/util.rs Index<mio::Token>@TokenSlab.index
ret: r
spec:
    requires token.0 < self.held().len()
    ensures *r == self.held()[token.0 as int]
@*/
/*@ fn src/util.rs IndexMut<mio::Token>@TokenSlab.index_mut
ret: r
spec:
    requires token.0 < old(self).held().len()
    ensures *r == old(self).held()[token.0 as int], final(self).held() == old(self).held().update(token.0 as int, *final(r))
@*/
}

pub mod time { pub type Duration = u64; }
#[verifier::external_body]
pub struct Slept { _p: () }
impl Slept { pub uninterp spec fn ms(&self) -> nat; }
#[verifier::external_body]
pub fn sleep(t: &mut Slept, ms: u64) ensures final(t).ms() == old(t).ms() + ms { unimplemented!() }
pub open spec fn two(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 2 * two((n - 1) as nat) }
}
/// bounds which leave no way to shrink from one attempt to the next
pub open spec fn least(n: nat) -> nat { if n == 0 { 0 } else if n >= 9 { 512 } else { two((n - 1) as nat) } }
pub open spec fn most(n: nat) -> nat { if n == 0 { 0 } else if n >= 9 { 512 } else { two(n) } }
pub proof fn theorem_grows(n: nat)
    ensures most(n) <= least(n + 1), most(n) <= 512, n > 0 ==> least(n) > 0
{
    reveal_with_fuel(two, 10);
}
/// powers of two, should the code shift for them
pub proof fn lemma_shifts()
    ensures
        forall|n: u32| n < 10 ==> #[trigger] (1i32 << n) == two(n as nat),
        forall|n: u32| n < 10 ==> #[trigger] (1u32 << n) == two(n as nat),
        forall|n: u32| n < 10 ==> #[trigger] (1u64 << n) == two(n as nat),
{
    reveal_with_fuel(two, 11);
    assert forall|n: u32| n < 10 implies #[trigger] (1i32 << n) == two(n as nat) by {
        if n == 0 { assert(1i32 << 0u32 == 1) by (bit_vector); } else if n == 1 { assert(1i32 << 1u32 == 2) by (bit_vector); }
        else if n == 2 { assert(1i32 << 2u32 == 4) by (bit_vector); } else if n == 3 { assert(1i32 << 3u32 == 8) by (bit_vector); }
        else if n == 4 { assert(1i32 << 4u32 == 16) by (bit_vector); } else if n == 5 { assert(1i32 << 5u32 == 32) by (bit_vector); }
        else if n == 6 { assert(1i32 << 6u32 == 64) by (bit_vector); } else if n == 7 { assert(1i32 << 7u32 == 128) by (bit_vector); }
        else if n == 8 { assert(1i32 << 8u32 == 256) by (bit_vector); } else { assert(1i32 << 9u32 == 512) by (bit_vector); }
    }
    assert forall|n: u32| n < 10 implies #[trigger] (1u32 << n) == two(n as nat) by {
        if n == 0 { assert(1u32 << 0u32 == 1) by (bit_vector); } else if n == 1 { assert(1u32 << 1u32 == 2) by (bit_vector); }
        else if n == 2 { assert(1u32 << 2u32 == 4) by (bit_vector); } else if n == 3 { assert(1u32 << 3u32 == 8) by (bit_vector); }
        else if n == 4 { assert(1u32 << 4u32 == 16) by (bit_vector); } else if n == 5 { assert(1u32 << 5u32 == 32) by (bit_vector); }
        else if n == 6 { assert(1u32 << 6u32 == 64) by (bit_vector); } else if n == 7 { assert(1u32 << 7u32 == 128) by (bit_vector); }
        else if n == 8 { assert(1u32 << 8u32 == 256) by (bit_vector); } else { assert(1u32 << 9u32 == 512) by (bit_vector); }
    }
    assert forall|n: u32| n < 10 implies #[trigger] (1u64 << n) == two(n as nat) by {
        if n == 0 { assert(1u64 << 0u32 == 1) by (bit_vector); } else if n == 1 { assert(1u64 << 1u32 == 2) by (bit_vector); }
        else if n == 2 { assert(1u64 << 2u32 == 4) by (bit_vector); } else if n == 3 { assert(1u64 << 3u32 == 8) by (bit_vector); }
        else if n == 4 { assert(1u64 << 4u32 == 16) by (bit_vector); } else if n == 5 { assert(1u64 << 5u32 == 32) by (bit_vector); }
        else if n == 6 { assert(1u64 << 6u32 == 64) by (bit_vector); } else if n == 7 { assert(1u64 << 7u32 == 128) by (bit_vector); }
        else if n == 8 { assert(1u64 << 8u32 == 256) by (bit_vector); } else { assert(1u64 << 9u32 == 512) by (bit_vector); }
    }
}
/*@ fn src/time.rs delay
sig:
    pub fn delay(t: &mut Slept, attempts: u32)
rw `thread::sleep($*d)` => `sleep(t, $*d)`
rw `time::Duration::from_millis($*d)` => `$*d`
spec:
    ensures ({
        let d = final(t).ms() - old(t).ms();
        least(attempts as nat) <= d <= most(attempts as nat)
    })
at fn-start:
    proof { reveal_with_fuel(two, 10); lemma_shifts(); }
@*/
fn main() {}
} // verus!
