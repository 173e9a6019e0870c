// ---------------------------------------------------------------- the naive stream window
// ---- stream evaluators: functions deciding whether a point is taken (pointer to function)
#[verifier::external_body] pub struct CEval { v: Vec<u8> }
pub uninterp spec fn ev_accepts(f: CEval, p: Seq<F64>, w: Seq<CVec<F64>>) -> bool;
/// calling it changes neither the point nor the window
pub uninterp spec fn ev_pure(f: CEval) -> bool;
#[verifier::external_body] pub fn eval_call(f: &CEval, p: &mut CVec<F64>, w: &mut CVec<CVec<F64>>) -> (r: bool)
    ensures r == ev_accepts(*f, old(p)@, old(w)@), ev_pure(*f) ==> *final(p) == *old(p) && *final(w) == *old(w) { unimplemented!() }
/// the address of naiveWindow::sampleStreamEvaluator; assumed: calling through the pointer meets that function's contract, which is proved below
#[verifier::external_body] pub fn fn_sampleStreamEvaluator() -> (r: CEval) ensures ev_pure(r), forall|p: Seq<F64>, w: Seq<CVec<F64>>| #[trigger] ev_accepts(r, p, w) { unimplemented!() }
// ---- the complex behind the base class pointer (assumed: virtual calls run the override of the object's class; simplexTree's is proved below)
pub open spec fn evaluator(c: SimpPtr) -> CEval { c.base.streamEval }
pub open spec fn same_object(a: SimpPtr, b: SimpPtr) -> bool { a.null == b.null && a.cls == b.cls }
pub open spec fn streaming(c: SimpPtr) -> bool { !c.null && c.cls == lit("simplexTree") }
#[verifier::external_body] pub fn dyn_insert_iterative(this: &mut SimpPtr, p: &mut CVec<F64>, w: &mut CVec<CVec<F64>>) -> (r: bool)
    requires !old(this).null, ev_pure(evaluator(*old(this)))
    ensures same_object(*final(this), *old(this)), evaluator(*final(this)) == evaluator(*old(this)),
        old(this).cls == lit("simplexTree") ==> *final(p) == *old(p) && *final(w) == *old(w) && r == (old(w)@.len() == 0 || ev_accepts(evaluator(*old(this)), old(p)@, old(w)@)) { unimplemented!() }
/// stages do not replace the complex object of a packet
pub axiom fn ax_stage_complex(cls: CStr, cfg: Map<CStr,CStr>, d: PipePacket) ensures same_object(stage_out(cls, cfg, d).complex, d.complex);
// ---- the stream
/// rows of a stream: until the first blank line or the end
pub open spec fn stream_rows(c: Seq<u8>) -> Seq<Seq<F64>> decreases c.len() via stream_rows_dec {
    let t = strip(first_line(c));
    if t.len() == 0 { Seq::empty() } else { seq![nums(t)] + stream_rows(after(c)) }
}
#[via_fn] proof fn stream_rows_dec(c: Seq<u8>) { lem_nl(c); if c.len() == 0 { lem_after_empty(c); lem_strip_empty(first_line(c)); } }
pub open spec fn stream_ok(c: Seq<u8>) -> bool decreases c.len() via stream_ok_dec {
    let t = strip(first_line(c));
    no_nul(c) && nl(c) < 999 && nums_ok(t) && (t.len() != 0 ==> stream_ok(after(c)))
}
#[via_fn] proof fn stream_ok_dec(c: Seq<u8>) { lem_nl(c); if c.len() == 0 { lem_after_empty(c); lem_strip_empty(first_line(c)); } }
/// the most recent points, at most 50, after p points
pub open spec fn window(r: Seq<Seq<F64>>, p: int) -> Seq<Seq<F64>> { r.subrange(if p > 50 { p - 50 } else { 0 }, p) }
// ---- handing the first full window to the complex
pub open spec fn init_names() -> Seq<CStr> { seq![lit("distMatrix"), lit("neighGraph")] }
pub open spec fn init_step(name: CStr, cfg: Map<CStr,CStr>, a: PipePacket, b: PipePacket) -> bool {
    let c = stage_class(name, lit("simplexTree"));
    if c.is_some() && stage_ok(c.unwrap(), cfg) { same_data(b, stage_out(c.unwrap(), cfg, a)) } else { b == a }
}
/// b is a after the distance matrix and the neighbourhood graph stages
pub open spec fn initialised(cfg: Map<CStr,CStr>, a: PipePacket, b: PipePacket) -> bool {
    exists|m: PipePacket| init_step(lit("distMatrix"), cfg, a, m) && #[trigger] init_step(lit("neighGraph"), cfg, m, b)
}
/// the same packet but for the complex and the data
pub open spec fn same_rest(a: PipePacket, b: PipePacket) -> bool { a == (PipePacket { complex: a.complex, originalData: a.originalData, ..b }) }
pub proof fn lem_init_names() ensures pieces(lit("distMatrix.neighGraph")@) == init_names(), lit("distMatrix.neighGraph")@.len() == 21
{
    let s = lit("distMatrix.neighGraph")@;
    reveal_strlit("distMatrix.neighGraph"); reveal_strlit("distMatrix"); reveal_strlit("neighGraph");
    assert(s.len() == 21); assert(s[10] == 46u8);
    lem_dot_unique(s, 10);
    let t = s.subrange(11, 21);
    assert(s.subrange(0, 10) =~= lit("distMatrix")@);
    assert(t =~= lit("neighGraph")@);
    lem_dot_unique(t, 10);
    assert(pieces(t) =~= seq![cstr_of(t)]);
    assert(cstr_of(lit("distMatrix")@) == lit("distMatrix")); assert(cstr_of(lit("neighGraph")@) == lit("neighGraph"));
    assert(pieces(s) == seq![cstr_of(s.subrange(0, 10))] + pieces(s.subrange(11, 21)));
    assert(pieces(s) =~= init_names());
}
pub proof fn lem_window_step(r: Seq<Seq<F64>>, p: int) requires 0 <= p < r.len()
    ensures p < 50 ==> window(r, p + 1) == window(r, p).push(r[p]), p >= 50 ==> window(r, p + 1) == window(r, p).remove(0).push(r[p]), window(r, p).len() == imin(p, 50)
{ if p < 50 { assert(window(r, p + 1) =~= window(r, p).push(r[p])); } else { assert(window(r, p + 1) =~= window(r, p).remove(0).push(r[p])); } }
pub proof fn lem_vrows_push(v: Seq<CVec<F64>>, x: CVec<F64>) ensures vrows(v.push(x)) == vrows(v).push(x@) { assert(vrows(v.push(x)) =~= vrows(v).push(x@)); }
pub proof fn lem_vrows_remove(v: Seq<CVec<F64>>) requires v.len() > 0 ensures vrows(v.remove(0)) == vrows(v).remove(0) { assert(vrows(v.remove(0)) =~= vrows(v).remove(0)); }
/// the packet after n points
pub open spec fn naive_packet(cfg: Map<CStr,CStr>, r: Seq<Seq<F64>>, n: int, a: PipePacket, b: PipePacket) -> bool {
    if n < 50 { b == a } else {
        exists|d0: PipePacket, d1: PipePacket| #[trigger] initialised(cfg, d0, d1) && same_rest(d0, a) && d0.complex == a.complex && vrows(d0.originalData@) == r.subrange(0, 50)
            && same_rest(b, d1) && evaluator_sample(b.complex)
            && (if n < 100 { b.originalData == d1.originalData } else { vrows(b.originalData@) == window(r, n - n % 100) })
    }
}
pub open spec fn evaluator_sample(c: SimpPtr) -> bool { ev_pure(evaluator(c)) && forall|p: Seq<F64>, w: Seq<CVec<F64>>| #[trigger] ev_accepts(evaluator(c), p, w) }
