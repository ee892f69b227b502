/// What can be seen of a point.
pub struct Pt { pub name: Seq<char>, pub agg: Agg, pub timestamp: i64, pub tags: Option<TagMap>, pub persist: bool }
pub open spec fn pt(t: Telemetry) -> Pt {
    Pt { name: t.name@, agg: t.agg(), timestamp: t.timestamp, tags: t.tags, persist: t.persist }
}
pub open spec fn pts(s: Seq<Telemetry>) -> Seq<Pt> { s.map_values(|t: Telemetry| pt(t)) }
pub open spec fn sent_pt(e: Event) -> Pt { pt(e->Telemetry_0) }
pub open spec fn sent_pts(s: Seq<Event>) -> Seq<Pt> { s.map_values(|e: Event| sent_pt(e)) }

/// what was sent from s0 to s1 are these points
pub open spec fn sent_more(s0: Seq<Event>, s1: Seq<Event>, ps: Seq<Pt>) -> bool {
    &&& s0.is_prefix_of(s1)
    &&& (forall|i: int| s0.len() <= i < s1.len() ==> #[trigger] s1[i] is Telemetry)
    &&& sent_pts(s1.skip(s0.len() as int)) == ps
}
pub open spec fn like_plain(t: Telemetry) -> bool { t.ok() && t.tags is None && !t.persist }
pub proof fn lemma_push(s0: Seq<Event>, s1: Seq<Event>, ps: Seq<Telemetry>, m: Telemetry)
    requires sent_more(s0, s1, pts(ps))
    ensures sent_more(s0, s1.push(Event::Telemetry(m)), pts(ps.push(m)))
{
    let e = Event::Telemetry(m);
    assert(s1.push(e).skip(s0.len() as int) =~= s1.skip(s0.len() as int).push(e));
    assert(sent_pts(s1.push(e).skip(s0.len() as int)) =~= sent_pts(s1.skip(s0.len() as int)).push(pt(m)));
    assert(pts(ps.push(m)) =~= pts(ps).push(pt(m)));
}
/// a set point without tags that does not persist
pub open spec fn plain() -> Pt { Pt { name: Seq::empty(), agg: Agg::Set(0.0f64), timestamp: 0, tags: None, persist: false } }

