// f64: the operators are functions of their operands, nothing more is assumed about them
pub uninterp spec fn fadd(x: f64, y: f64) -> f64;
pub uninterp spec fn fsub(x: f64, y: f64) -> f64;
pub uninterp spec fn fmul(x: f64, y: f64) -> f64;
pub uninterp spec fn fdiv(x: f64, y: f64) -> f64;
pub uninterp spec fn fge(x: f64, y: f64) -> bool;
pub uninterp spec fn fle(x: f64, y: f64) -> bool;
pub uninterp spec fn flt(x: f64, y: f64) -> bool;
pub uninterp spec fn fgt(x: f64, y: f64) -> bool;
pub uninterp spec fn feq(x: f64, y: f64) -> bool;
pub uninterp spec fn fof(x: int) -> f64;
pub broadcast axiom fn ax_fadd(x: f64, y: f64, o: f64)
    ensures #[trigger] vstd::std_specs::ops::add_ensures(x, y, o) ==> o == fadd(x, y);
pub broadcast axiom fn ax_fadd_req(x: f64, y: f64)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(x, y);
pub broadcast axiom fn ax_fsub(x: f64, y: f64, o: f64)
    ensures #[trigger] vstd::std_specs::ops::sub_ensures(x, y, o) ==> o == fsub(x, y);
pub broadcast axiom fn ax_fsub_req(x: f64, y: f64)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(x, y);
pub broadcast axiom fn ax_fmul(x: f64, y: f64, o: f64)
    ensures #[trigger] vstd::std_specs::ops::mul_ensures(x, y, o) ==> o == fmul(x, y);
pub broadcast axiom fn ax_fmul_req(x: f64, y: f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(x, y);
pub broadcast axiom fn ax_fdiv(x: f64, y: f64, o: f64)
    ensures #[trigger] vstd::std_specs::ops::div_ensures(x, y, o) ==> o == fdiv(x, y);
pub broadcast axiom fn ax_fdiv_req(x: f64, y: f64)
    ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(x, y);
pub broadcast axiom fn ax_fge(x: f64, y: f64, o: bool)
    ensures #[trigger] vstd::std_specs::cmp::ge_ensures(x, y, o) ==> o == fge(x, y);
pub broadcast axiom fn ax_fle(x: f64, y: f64, o: bool)
    ensures #[trigger] vstd::std_specs::cmp::le_ensures(x, y, o) ==> o == fle(x, y);
pub broadcast axiom fn ax_flt(x: f64, y: f64, o: bool)
    ensures #[trigger] vstd::std_specs::cmp::lt_ensures(x, y, o) ==> o == flt(x, y);
pub broadcast axiom fn ax_fgt(x: f64, y: f64, o: bool)
    ensures #[trigger] vstd::std_specs::cmp::gt_ensures(x, y, o) ==> o == fgt(x, y);
pub broadcast axiom fn ax_feq(x: f64, y: f64, o: bool)
    ensures #[trigger] vstd::std_specs::cmp::eq_ensures(x, y, o) ==> o == feq(x, y);
// both operand orders of + and * give the same float; x >= y is y <= x
pub broadcast axiom fn ax_fadd_comm(x: f64, y: f64)
    ensures #[trigger] fadd(x, y) == fadd(y, x);
pub broadcast axiom fn ax_fge_le(x: f64, y: f64)
    ensures #[trigger] fge(x, y) == fle(y, x);
pub broadcast axiom fn ax_fgt_lt(x: f64, y: f64)
    ensures #[trigger] fgt(x, y) == flt(y, x);
pub broadcast group floats {
    ax_fadd, ax_fadd_req, ax_fsub, ax_fsub_req, ax_fmul, ax_fmul_req, ax_fdiv, ax_fdiv_req,
    ax_fge, ax_fle, ax_flt, ax_fgt, ax_feq, ax_fadd_comm, ax_fge_le, ax_fgt_lt,
}
/// `usize as f64`
#[verifier::external_body]
pub fn f64_of(x: usize) -> (r: f64) ensures r == fof(x as int) { x as f64 }
