// ---------------------------------------------------------------- reduced mode: one run per partition, points by their original index
pub type Row = BettiBoundaryTableEntry;
/// x is the original index of a point named p in the partition
pub open spec fn image(lab: Seq<u32>, p: Set<u32>, x: u32) -> bool { exists|i: u32| #[trigger] p.contains(i) && i < lab.len() && lab[i as int] == x }
/// the same interval, its points by their original index
pub open spec fn mapped_row(lab: Seq<u32>, a: Row, b: Row) -> bool {
    b.bettiDim == a.bettiDim && b.birth == a.birth && b.death == a.death && forall|x: u32| #[trigger] b.boundaryPoints.s().contains(x) <==> image(lab, a.boundaryPoints.s(), x)
}
pub open spec fn mapped(lab: Seq<u32>, a: Seq<Row>, b: Seq<Row>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> mapped_row(lab, a[i], #[trigger] b[i]) }
/// every point a row names exists
pub open spec fn names_points(t: Seq<Row>, n: int) -> bool { forall|i: int, p: u32| 0 <= i < t.len() && #[trigger] t[i].boundaryPoints.s().contains(p) ==> p < n }
// ---- the complex after clearing (assumed: a virtual call runs the override of the object's class; clearing is proved in P06 and P07)
pub uninterp spec fn cleared(c: SimpPtr) -> SimpPtr;
#[verifier::external_body] pub fn ext_clear(c: &mut SimpPtr) requires !old(c).null ensures !final(c).null, *final(c) == cleared(*old(c)) { unimplemented!() }
/// one partition: nothing happens when it is empty, otherwise the pipeline runs on its points, the complex is emptied and the intervals it added are reported by original indices
pub open spec fn part_step(m: Map<CStr,CStr>, idx: Seq<u32>, pts: CVec<CVec<F64>>, a: PipePacket, b: PipePacket, add: Seq<Row>) -> bool {
    if pts@.len() == 0 { b == a && add.len() == 0 }
    else { exists|r: PipePacket| #[trigger] pipeline_result(m, PipePacket { originalData: pts, ..a }, r) && mapped(idx, r.bettiTable@, add) && b.bettiTable@.len() == 0 && b == (PipePacket { complex: cleared(r.complex), bettiTable: b.bettiTable, ..r }) }
}
pub open spec fn flat(s: Seq<Seq<Row>>) -> Seq<Row> decreases s.len() { if s.len() == 0 { Seq::<Row>::empty() } else { flat(s.drop_last()) + s.last() } }
/// all partitions, one after the other
pub open spec fn parts_run(m: Map<CStr,CStr>, idx: Seq<CVec<u32>>, pts: Seq<CVec<CVec<F64>>>, tr: Seq<PipePacket>, adds: Seq<Seq<Row>>) -> bool {
    tr.len() == adds.len() + 1 && adds.len() <= pts.len() && idx.len() == pts.len() && forall|z: int| 0 <= z < adds.len() ==> part_step(m, idx[z]@, pts[z], tr[z], tr[z + 1], #[trigger] adds[z])
}
/// the radius of the partitions is twice the largest distance of a point to its centroid
pub open spec fn max_radius(w: PipePacket, r: real) -> bool {
    &&& forall|i: int| 0 <= i < w.originalLabels@.len() ==> #[trigger] dist(w.fullData@[i]@, w.originalData@[w.originalLabels@[i] as int]@) <= r
    &&& w.originalLabels@.len() == 0 ==> r == 0real
    &&& w.originalLabels@.len() > 0 ==> exists|i: int| 0 <= i < w.originalLabels@.len() && #[trigger] dist(w.fullData@[i]@, w.originalData@[w.originalLabels@[i] as int]@) == r
}
pub open spec fn partitions(w: PipePacket, rad: real, idx: Seq<CVec<u32>>, pts: Seq<CVec<CVec<F64>>>) -> bool {
    let n = w.originalLabels@.len() as int;
    idx.len() == w.originalData@.len() && pts.len() == w.originalData@.len()
    && forall|c: int| #![trigger idx[c]] #![trigger pts[c]] 0 <= c < w.originalData@.len() ==> idx[c]@ == sel_idx(n, by_radius(w.fullData@, w.originalData@, rad, c)) && pts[c]@ == sel_pts(w.fullData@, n, by_radius(w.fullData@, w.originalData@, rad, c))
}
/// the run on the centroids, which keeps the intervals collected before
pub open spec fn centroid_step(m: Map<CStr,CStr>, cents: CVec<CVec<F64>>, a: PipePacket, b: PipePacket) -> bool {
    if cents@.len() == 0 { b == a } else { exists|r: PipePacket| #[trigger] pipeline_result(m, PipePacket { originalData: cents, ..a }, r) && b == (PipePacket { complex: cleared(r.complex), ..r }) }
}
pub open spec fn reduced_result(m: Map<CStr,CStr>, w: PipePacket, b: PipePacket) -> bool {
    exists|r: real, idx: Seq<CVec<u32>>, pts: Seq<CVec<CVec<F64>>>, tr: Seq<PipePacket>, adds: Seq<Seq<Row>>, u: PipePacket|
        #![trigger max_radius(w, r), parts_run(m, idx, pts, tr, adds), centroid_step(m, w.originalData, u, b)]
        max_radius(w, r) && partitions(w, 2real * r, idx, pts) && parts_run(m, idx, pts, tr, adds) && adds.len() == pts.len() && tr[0] == w
        && u.bettiTable@ == flat(adds) && u == (PipePacket { bettiTable: u.bettiTable, ..tr.last() })
        && centroid_step(m, w.originalData, u, b)
}
pub open spec fn with_clusters(m: Map<CStr,CStr>) -> Map<CStr,CStr> { if has_key(m, "clusters") { m } else { m.insert(lit("clusters"), lit("")) } }
/// what the clustering before it delivers (P13): a centroid for every label, a label for every point, one dimension
pub open spec fn clustered(w: PipePacket) -> bool {
    &&& w.originalLabels@.len() <= w.fullData@.len() && w.bettiTable@.len() == 0
    &&& forall|i: int| 0 <= i < w.originalLabels@.len() ==> (#[trigger] w.originalLabels@[i]) < w.originalData@.len()
    &&& forall|i: int, j: int| 0 <= i < w.originalLabels@.len() && 0 <= j < w.originalData@.len() ==> (#[trigger] w.fullData@[i])@.len() == (#[trigger] w.originalData@[j])@.len()
}
/// the intervals of a run name points of the data it ran on (proved for the default persistence stage in P09)
pub open spec fn runs_name_points(m: Map<CStr,CStr>) -> bool {
    forall|a: PipePacket, b: PipePacket| #[trigger] pipeline_result(m, a, b) && a.bettiTable@.len() == 0 ==> names_points(b.bettiTable@, a.originalData@.len() as int)
}
pub proof fn lem_flat_push(s: Seq<Seq<Row>>, x: Seq<Row>) ensures flat(s.push(x)) == flat(s) + x { assert(s.push(x).drop_last() =~= s); }
/// the files of the last run hold this packet's statistics and intervals
pub open spec fn results_left(m: Map<CStr,CStr>, w: PipePacket, d1: Map<Seq<u8>, Seq<u8>>) -> bool { exists|d: Map<Seq<u8>, Seq<u8>>| #[trigger] results_written(m, w, d, d1) }
