// ---------------------------------------------------------------- micro-clusters
pub axiom fn ax_pow2_pos(b: real) ensures rpow(2real, b) > 0real;
/// weight at time t: halves every 1/lambda time units
pub open spec fn decayed(c: MicroCluster, t: int) -> real { c.weight@ * rpow(2real, (-c.lambda@) * ((t - c.editTime) as real)) }
pub open spec fn mc_wf(c: MicroCluster, dim: int, t: int) -> bool { c.center@.len() == dim && c.avgSquares@.len() == dim && dim <= MAXLEN && c.weight@ >= 0real && -0x4000_0000 <= c.editTime <= 0x4000_0000 && -0x4000_0000 <= t <= 0x3fff_ffff }
pub proof fn lem_decayed(c: MicroCluster, t: int) requires c.weight@ >= 0real ensures decayed(c, t) >= 0real, c.weight@ == 0real ==> decayed(c, t) == 0real
{ let r = rpow(2real, (-c.lambda@) * ((t - c.editTime) as real)); ax_pow2_pos((-c.lambda@) * ((t - c.editTime) as real)); let w = c.weight@; assert(w * r >= 0real) by (nonlinear_arith) requires w >= 0real, r > 0real; assert(w == 0real ==> w * r == 0real) by (nonlinear_arith); }
/// weighted mean of m (weight w) and x (weight one)
pub open spec fn wmean(w: real, m: real, x: real) -> real { (w * m + x) / (w + 1real) }
pub proof fn lem_wmean(w: real, m: real, x: real) requires w >= 0real ensures m + (x - m) / (w + 1real) == wmean(w, m, x), w == 0real ==> wmean(w, m, x) == x
{
    let n = w + 1real; let q = (x - m) / n;
    assert(q * n == x - m) by (nonlinear_arith) requires n > 0real, q == (x - m) / n;
    assert((m + q) * n == w * m + x) by (nonlinear_arith) requires q * n == x - m, n == w + 1real;
    let s = m + q; let v = w * m + x;
    assert(s == v / n) by (nonlinear_arith) requires s * n == v, n > 0real;
    if w == 0real { assert(v == x) by (nonlinear_arith) requires w == 0real, v == w * m + x; assert(v / n == x) by (nonlinear_arith) requires n == 1real, v == x; }
}
pub open spec fn mc_center(a: MicroCluster, pt: Seq<F64>, t: int, i: int) -> real { wmean(decayed(a, t), a.center@[i]@, pt[i]@) }
pub open spec fn mc_square(a: MicroCluster, pt: Seq<F64>, t: int, i: int) -> real { wmean(decayed(a, t), a.avgSquares@[i]@, pt[i]@ * pt[i]@) }
/// b is a after absorbing pt at time t
pub open spec fn mc_ins(a: MicroCluster, b: MicroCluster, pt: Seq<F64>, t: int) -> bool {
    &&& b.weight@ == decayed(a, t) + 1real && b.editTime == t && b.creationTime == a.creationTime && b.lambda@ == a.lambda@
    &&& b.center@.len() == a.center@.len() && b.avgSquares@.len() == a.avgSquares@.len()
    &&& forall|i: int| 0 <= i < a.center@.len() ==> (#[trigger] b.center@[i])@ == mc_center(a, pt, t, i)
    &&& forall|i: int| 0 <= i < a.center@.len() ==> (#[trigger] b.avgSquares@[i])@ == mc_square(a, pt, t, i)
}
/// sum over the coordinates of (mean of squares - square of mean)
pub open spec fn mc_r2(c: MicroCluster, n: int) -> real decreases n { if n <= 0 { 0real } else { mc_r2(c, n - 1) + (c.avgSquares@[n - 1]@ - c.center@[n - 1]@ * c.center@[n - 1]@) } }
pub open spec fn mc_radius(c: MicroCluster) -> real { rsqrt(mc_r2(c, c.center@.len() as int)) }
pub open spec fn mc_m2(c: MicroCluster, pt: Seq<F64>, t: int, n: int) -> real decreases n { if n <= 0 { 0real } else { mc_m2(c, pt, t, n - 1) + (mc_square(c, pt, t, n - 1) - mc_center(c, pt, t, n - 1) * mc_center(c, pt, t, n - 1)) } }
/// the radius the cluster would have after absorbing pt
pub open spec fn mc_merged(c: MicroCluster, pt: Seq<F64>, t: int) -> real { rsqrt(mc_m2(c, pt, t, c.center@.len() as int)) }
pub proof fn lem_merged(a: MicroCluster, b: MicroCluster, pt: Seq<F64>, t: int, n: int) requires mc_ins(a, b, pt, t), n <= a.center@.len() ensures mc_r2(b, n) == mc_m2(a, pt, t, n) decreases n
{ if n > 0 { lem_merged(a, b, pt, t, n - 1); assert(b.center@[n - 1]@ == mc_center(a, pt, t, n - 1)); assert(b.avgSquares@[n - 1]@ == mc_square(a, pt, t, n - 1)); } }
pub open spec fn all_wf(s: Seq<MicroCluster>, dim: int, t: int) -> bool { forall|i: int| 0 <= i < s.len() ==> mc_wf(#[trigger] s[i], dim, t) }
pub open spec fn mc_nearest(s: Seq<MicroCluster>, pt: Seq<F64>, j: int) -> bool { 0 <= j < s.len() && forall|i: int| 0 <= i < s.len() ==> dist(s[j].center@, pt) <= dist((#[trigger] s[i]).center@, pt) }
/// j is a nearest cluster and may absorb pt
pub open spec fn mc_takes(s: Seq<MicroCluster>, pt: Seq<F64>, t: int, eps: real, j: int) -> bool { mc_nearest(s, pt, j) && mc_merged(s[j], pt, t) <= eps }
/// a nearest cluster refuses pt, or there is none
pub open spec fn mc_refuse(s: Seq<MicroCluster>, pt: Seq<F64>, t: int, eps: real) -> bool { s.len() == 0 || exists|j: int| #[trigger] mc_nearest(s, pt, j) && mc_merged(s[j], pt, t) > eps }
pub open spec fn mc_fresh(c: MicroCluster, pt: Seq<F64>, t: int, lam: real) -> bool {
    c.center@.len() == pt.len() && c.avgSquares@.len() == pt.len() && c.weight@ == 1real && c.lambda@ == lam && c.creationTime == t && c.editTime == t && (forall|i: int| 0 <= i < pt.len() ==> (#[trigger] c.center@[i])@ == pt[i]@)
    && (forall|i: int| 0 <= i < pt.len() ==> (#[trigger] c.avgSquares@[i])@ == pt[i]@ * pt[i]@)
}
pub open spec fn merge_p(p: Seq<MicroCluster>, o: Seq<MicroCluster>, p2: Seq<MicroCluster>, o2: Seq<MicroCluster>, pt: Seq<F64>, t: int, eps: real) -> bool {
    exists|j: int, c: MicroCluster| #[trigger] mc_takes(p, pt, t, eps, j) && #[trigger] mc_ins(p[j], c, pt, t) && p2 == p.update(j, c) && o2 == o
}
pub open spec fn merge_o(p: Seq<MicroCluster>, o: Seq<MicroCluster>, p2: Seq<MicroCluster>, o2: Seq<MicroCluster>, pt: Seq<F64>, t: int, eps: real, lim: real) -> bool {
    mc_refuse(p, pt, t, eps) && exists|k: int, c: MicroCluster| #[trigger] mc_takes(o, pt, t, eps, k) && #[trigger] mc_ins(o[k], c, pt, t) && (if decayed(c, t) > lim { p2 == p.push(c) && o2 == o.remove(k) } else { p2 == p && o2 == o.update(k, c) })
}
pub open spec fn merge_n(p: Seq<MicroCluster>, o: Seq<MicroCluster>, p2: Seq<MicroCluster>, o2: Seq<MicroCluster>, pt: Seq<F64>, t: int, eps: real, lam: real) -> bool {
    mc_refuse(p, pt, t, eps) && mc_refuse(o, pt, t, eps) && p2 == p && exists|c: MicroCluster| #[trigger] mc_fresh(c, pt, t, lam) && o2 == o.push(c)
}
