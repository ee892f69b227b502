// the matrix is filled from the configuration (the includer says what metric::Event and hopper::Sender are)
pub mod process {
    #[verifier::external_body]
    pub fn exit(n: i32) -> ! ensures false { unimplemented!() }
}
#[verifier::external_body]
pub struct NameSet { _p: () }
impl View for NameSet {
    type V = Set<Str>;
    uninterp spec fn view(&self) -> Set<Str>;
}
impl NameSet {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
pub type Sender = hopper::Sender<metric::Event>;
/// an edge to every forward, which carries the sender of that forward
pub open spec fn forwarded(g: Graph<Sender>, from: Str, tos: Seq<String>, sends: Map<Str, Sender>) -> Graph<Sender>
    decreases tos.len()
{
    if tos.len() == 0 { g } else { link(forwarded(g, from, tos.drop_last(), sends), from, tos.last()@, Some(sends[tos.last()@])) }
}
pub open spec fn name_set(tos: Seq<String>) -> Set<Str>
    decreases tos.len()
{
    if tos.len() == 0 { Set::empty() } else { name_set(tos.drop_last()).insert(tos.last()@) }
}
/*@ fn src/bin/cernan.rs populate_forwards
sig:
    pub fn populate_forwards(top: Option<()>, top_set: &mut NameSet, forwards: &[String], config_path: &str,
        available_sends: &NameMap<Sender>, adjacency_matrix: &mut Adjacency<Sender>)
rw `if let Some($t) = top_level_forwards.as_mut() { $*b }` => `if top.is_some() { let $t = &mut *top_set; $*b }`
rw `let _ = (*$t).insert($*k);` => `let _ = $t.insert($*k);`
rw `in forwards {` => `in forwards.iter() {`
rw `&fwd.clone()` => `fwd.as_str()`
spec:
    ensures
        // it only returns when every forward is there to be fulfilled
        forall|i: int| 0 <= i < forwards@.len() ==> available_sends@.contains_key((#[trigger] forwards@[i])@),
        final(adjacency_matrix).g() == forwarded(old(adjacency_matrix).g(), config_path@, forwards@, available_sends@),
        final(top_set)@ == if top is Some { old(top_set)@.union(name_set(forwards@)) } else { old(top_set)@ },
loop 1 for iter it:
    invariant
        it.seq().len() == forwards@.len(), forall|i: int| 0 <= i < forwards@.len() ==> *(#[trigger] it.seq()[i]) == forwards@[i],
        forall|i: int| 0 <= i < it.index() ==> available_sends@.contains_key((#[trigger] forwards@[i])@),
        adjacency_matrix.g() == forwarded(old(adjacency_matrix).g(), config_path@, forwards@.take(it.index()), available_sends@),
        top_set@ =~= if top is Some { old(top_set)@.union(name_set(forwards@.take(it.index()))) } else { old(top_set)@ },
at loop 1 start:
    proof { assert(forwards@.take(it.index() + 1).drop_last() =~= forwards@.take(it.index())); assert(*it.seq()[it.index()] == forwards@[it.index()]); }
at loop 1 after:
    proof { assert(forwards@.take(forwards@.len() as int) =~= forwards@); }
@*/
