// ---------------------------------------------------------------- k-d tree
// std::shared_ptr<kdNode>: an immutable value (the code never writes through the pointer and never compares pointers;
// the extractor rejects both)
pub enum KdPtr { Null, Node(Box<KdNode>) }
impl KdPtr {
    pub open spec fn nn(&self) -> bool { self is Node }
    pub open spec fn nv(&self) -> KdNode { *self->Node_0 }
    pub fn null() -> (r: KdPtr) ensures r == KdPtr::Null { KdPtr::Null }
    pub fn mk(n: KdNode) -> (r: KdPtr) ensures r.nn(), r.nv() == n { KdPtr::Node(Box::new(n)) }
    pub fn nd(&self) -> (r: &KdNode) requires self.nn() ensures *r == self.nv() { match self { KdPtr::Node(b) => b, KdPtr::Null => vstd::pervasive::unreached() } }
    pub fn is_null(&self) -> (r: bool) ensures r == !self.nn() { match self { KdPtr::Node(_) => false, KdPtr::Null => true } }
}
pub type KE = (CVec<F64>, usize);
pub open spec fn live(p: KdPtr) -> bool { p.nn() && p.nv().x@.len() > 0 }
pub open spec fn ms(p: KdPtr) -> Multiset<KE> decreases p
{ match p { KdPtr::Null => Multiset::empty(), KdPtr::Node(n) => if n.x@.len() == 0 { Multiset::empty() } else { ms(n.left).add(ms(n.right)).insert((n.x, n.index)) } } }
pub open spec fn ke(p: KdPtr) -> KE { (p.nv().x, p.nv().index) }
pub open spec fn kd_ok(p: KdPtr, level: int, dim: int) -> bool decreases p
{ match p {
    KdPtr::Null => false,
    KdPtr::Node(n) => n.x@.len() == 0 || (0 <= level < dim && n.x@.len() == dim
        && kd_ok(n.left, (level + 1) % dim, dim) && kd_ok(n.right, (level + 1) % dim, dim)
        && (forall|e: KE| #[trigger] ms(n.left).count(e) > 0 ==> e.0@.len() == dim && e.0@[level]@ <= n.x@[level]@)
        && (forall|e: KE| #[trigger] ms(n.right).count(e) > 0 ==> e.0@.len() == dim && e.0@[level]@ >= n.x@[level]@)) } }
pub open spec fn within(pt: Seq<F64>, rad: real) -> spec_fn(KE) -> bool { |e: KE| dist(e.0@, pt) <= rad }
pub open spec fn far(pt: Seq<F64>, rad: real, m: Multiset<KE>) -> bool { forall|e: KE| #[trigger] m.count(e) > 0 ==> !(dist(e.0@, pt) <= rad) }
pub proof fn lem_sq_coord(a: Seq<F64>, b: Seq<F64>, k: int) requires 0 <= k < a.len() ensures sqdist(a, b) >= (a[k]@ - b[k]@) * (a[k]@ - b[k]@) decreases a.len()
{
    lem_sqdist_nonneg(a.drop_last(), b);
    let d = a.last()@ - b[a.len()-1]@; assert(d * d >= 0real) by (nonlinear_arith);
    if k < a.len() - 1 { lem_sq_coord(a.drop_last(), b, k); assert(a.drop_last()[k] == a[k]); }
}
pub proof fn lem_coord(a: Seq<F64>, b: Seq<F64>, k: int) requires 0 <= k < a.len(), a.len() <= b.len() ensures dist(a, b) >= rabs(a[k]@ - b[k]@)
{
    lem_sq_coord(a, b, k); lem_sqdist_nonneg(a, b);
    let r = rsqrt(sqdist(a, b)); let d = a[k]@ - b[k]@;
    assert(r >= d && r >= -d) by (nonlinear_arith) requires r >= 0real, r * r >= d * d;
}
/// splitting off one subtree of a radius query
pub proof fn lem_far_other(m: Multiset<KE>, x: Seq<F64>, pt: Seq<F64>, level: int, dx: real, bound: real, left: bool)
    requires 0 <= level < pt.len(), dx == x[level]@ - pt[level]@,
        forall|e: KE| #[trigger] m.count(e) > 0 ==> e.0@.len() == pt.len() && (if left { e.0@[level]@ <= x[level]@ } else { e.0@[level]@ >= x[level]@ }),
        left ==> !(dx > 0real), !left ==> dx > 0real,
    ensures forall|e: KE| #[trigger] m.count(e) > 0 ==> dist(e.0@, pt) >= rabs(dx)
{
    assert forall|e: KE| #[trigger] m.count(e) > 0 implies dist(e.0@, pt) >= rabs(dx) by { lem_coord(e.0@, pt, level); }
}
pub proof fn lem_filter_add(a: Multiset<KE>, b: Multiset<KE>, f: spec_fn(KE) -> bool) ensures a.add(b).filter(f) =~= a.filter(f).add(b.filter(f))
{ assert forall|v: KE| #[trigger] a.add(b).filter(f).count(v) == a.filter(f).add(b.filter(f)).count(v) by { } }
pub proof fn lem_filter_ins(a: Multiset<KE>, x: KE, f: spec_fn(KE) -> bool) ensures a.insert(x).filter(f) =~= (if f(x) { a.filter(f).insert(x) } else { a.filter(f) })
{ assert forall|v: KE| #[trigger] a.insert(x).filter(f).count(v) == (if f(x) { a.filter(f).insert(x) } else { a.filter(f) }).count(v) by { } }
pub proof fn lem_filter_none(a: Multiset<KE>, f: spec_fn(KE) -> bool) requires forall|e: KE| #[trigger] a.count(e) > 0 ==> !f(e) ensures a.filter(f) =~= Multiset::empty()
{ assert forall|v: KE| #[trigger] a.filter(f).count(v) == Multiset::<KE>::empty().count(v) by { } }
pub open spec fn indexed(data: Seq<CVec<F64>>, n: int) -> Seq<KE> { Seq::new(n as nat, |i: int| (data[i], i as usize)) }
pub open spec fn tree_of(t: KdTree, data: Seq<CVec<F64>>, n: int, dim: int) -> bool { kd_ok(t.root, 0, dim) && ms(t.root) == indexed(data, n).to_multiset() && 0 <= n <= data.len() && n <= MAXLEN && dim >= 1 }
pub open spec fn tree_pts(m: Multiset<KE>, dim: int) -> bool { forall|e: KE| #[trigger] m.count(e) > 0 ==> e.0@.len() == dim }
pub proof fn lem_tree_dim(p: KdPtr, level: int, dim: int) requires kd_ok(p, level, dim) ensures tree_pts(ms(p), dim), live(p) == (ms(p).len() > 0)
{
    if live(p) {
        let n = p.nv(); assert(ms(p).count((n.x, n.index)) > 0);
        assert forall|e: KE| #[trigger] ms(p).count(e) > 0 implies e.0@.len() == dim by { lem_ms_node(p, e); }
    }
}
pub proof fn lem_ms_node(p: KdPtr, e: KE) requires live(p)
    ensures ms(p).count(e) == ms(p.nv().left).count(e) + ms(p.nv().right).count(e) + (if e == ke(p) { 1nat } else { 0nat })
{ }
/// one step of the radius query
pub proof fn lem_neigh_step(p: KdPtr, level: int, pt: Seq<F64>, rad: real)
    requires kd_ok(p, level, pt.len() as int), live(p), pt.len() >= 1,
    ensures ({ let n = p.nv(); let dx = n.x@[level]@ - pt[level]@; let f = within(pt, rad);
        let l = ms(n.left).filter(f); let r = ms(n.right).filter(f); let s = l.add(r);
        &&& ms(p).filter(f) =~= (if f(ke(p)) { s.insert(ke(p)) } else { s })
        &&& (!(rabs(dx) <= rad) && dx > 0real ==> r =~= Multiset::empty())
        &&& (!(rabs(dx) <= rad) && !(dx > 0real) ==> l =~= Multiset::empty())
        &&& 0 <= level < pt.len() && n.x@.len() == pt.len() && kd_ok(n.left, (level + 1) % (pt.len() as int), pt.len() as int) && kd_ok(n.right, (level + 1) % (pt.len() as int), pt.len() as int) })
{
    let n = p.nv(); let dx = n.x@[level]@ - pt[level]@; let f = within(pt, rad);
    lem_filter_ins(ms(n.left).add(ms(n.right)), ke(p), f); lem_filter_add(ms(n.left), ms(n.right), f);
    if !(rabs(dx) <= rad) {
        if dx > 0real { lem_far_other(ms(n.right), n.x@, pt, level, dx, rad, false); lem_filter_none(ms(n.right), f); }
        else { lem_far_other(ms(n.left), n.x@, pt, level, dx, rad, true); lem_filter_none(ms(n.left), f); }
    }
}
pub proof fn lem_ms_concat(a: Seq<KE>, b: Seq<KE>) ensures (a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub proof fn lem_ms_push(a: Seq<KE>, x: KE) ensures a.push(x).to_multiset() =~= a.to_multiset().insert(x)
{ a.to_multiset_ensures(); }
pub proof fn lem_ms_empty() ensures Seq::<KE>::empty().to_multiset() =~= Multiset::empty()
{ Seq::<KE>::empty().to_multiset_ensures(); }
/// whatever lies in the subtree on the far side is at least |dx| away
pub proof fn lem_near_step(p: KdPtr, level: int, pt: Seq<F64>)
    requires kd_ok(p, level, pt.len() as int), live(p), pt.len() >= 1,
    ensures ({ let n = p.nv(); let dx = n.x@[level]@ - pt[level]@; 
        &&& (dx > 0real ==> forall|e: KE| #[trigger] ms(n.right).count(e) > 0 ==> dist(e.0@, pt) >= rabs(dx))
        &&& (!(dx > 0real) ==> forall|e: KE| #[trigger] ms(n.left).count(e) > 0 ==> dist(e.0@, pt) >= rabs(dx))
        &&& 0 <= level < pt.len() && n.x@.len() == pt.len() && kd_ok(n.left, (level + 1) % (pt.len() as int), pt.len() as int) && kd_ok(n.right, (level + 1) % (pt.len() as int), pt.len() as int)
        &&& (!live(n.left) ==> ms(n.left) == Multiset::<KE>::empty()) && (!live(n.right) ==> ms(n.right) == Multiset::<KE>::empty()) })
{
    let n = p.nv(); let dx = n.x@[level]@ - pt[level]@;
    if dx > 0real { lem_far_other(ms(n.right), n.x@, pt, level, dx, 0real, false); } else { lem_far_other(ms(n.left), n.x@, pt, level, dx, 0real, true); }
}
/// a listing of the points of a multiset obtained from the indexed data: every index at most once
pub proof fn lem_indices(q: Seq<KE>, data: Seq<CVec<F64>>, n: int, f: spec_fn(KE) -> bool)
    requires 0 <= n <= data.len(), n <= MAXLEN, q.to_multiset() == indexed(data, n).to_multiset().filter(f)
    ensures forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).1 < n && q[k].0 == data[q[k].1 as int] && f(q[k]),
        forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> q[i].1 != q[j].1,
        forall|i: int| 0 <= i < n && f((#[trigger] data[i], i as usize)) ==> exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == i,
{
    let ix = indexed(data, n); let im = ix.to_multiset(); let qm = q.to_multiset();
    ix.to_multiset_ensures(); q.to_multiset_ensures();
    assert(ix.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies ix[i] != ix[j] by { assert(ix[i].1 == i && ix[j].1 == j); } }
    ix.lemma_multiset_has_no_duplicates();
    assert forall|e: KE| qm.count(e) <= 1 by { assert(im.count(e) <= 1) by { if im.contains(e) { assert(im.count(e) == 1); } } }
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).1 < n && q[k].0 == data[q[k].1 as int] && f(q[k]) by {
        assert(q.contains(q[k])); assert(qm.count(q[k]) > 0); assert(im.count(q[k]) > 0); assert(ix.contains(q[k]));
        let i = choose|i: int| 0 <= i < ix.len() && ix[i] == q[k]; assert(ix[i].1 == i);
    }
    q.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies q[i].1 != q[j].1 by { if q[i].1 == q[j].1 { assert(q[i] == q[j]); } }
    assert forall|i: int| 0 <= i < n && f((#[trigger] data[i], i as usize)) implies exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == i by {
        let e = (data[i], i as usize); assert(ix[i] == e); assert(ix.contains(e)); assert(im.count(e) > 0); assert(qm.count(e) > 0); assert(q.contains(e));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == e; assert(q[k].1 == i);
    }
}
/// rearranging two disjoint stretches of a sequence
pub proof fn lem_ms_split(s: Seq<KE>, p: int, m: int, q: int) requires 0 <= p <= m < q <= s.len()
    ensures s.subrange(p, q).to_multiset() =~= s.subrange(p, m).to_multiset().add(s.subrange(m + 1, q).to_multiset()).insert(s[m])
{
    let a = s.subrange(p, m); let b = s.subrange(m + 1, q);
    assert(s.subrange(p, q) =~= a.push(s[m]) + b);
    vstd::seq_lib::lemma_multiset_commutative(a.push(s[m]), b);
    a.to_multiset_ensures();
    assert(a.push(s[m]).to_multiset() =~= a.to_multiset().insert(s[m]));
}
pub proof fn lem_ms_mem(s: Seq<KE>, p: int, q: int, e: KE) requires 0 <= p <= q <= s.len() ensures (s.subrange(p, q).to_multiset().count(e) > 0) == (exists|i: int| p <= i < q && #[trigger] s[i] == e)
{
    let a = s.subrange(p, q); a.to_multiset_ensures();
    assert((a.to_multiset().count(e) > 0) == a.contains(e));
    if a.contains(e) { let k = choose|k: int| 0 <= k < a.len() && a[k] == e; assert(s[p + k] == e); }
    if exists|i: int| p <= i < q && #[trigger] s[i] == e { let i = choose|i: int| p <= i < q && #[trigger] s[i] == e; assert(a[i - p] == e); }
}

/// exactly the indices of the points within the radius, each once
pub open spec fn index_list(r: Seq<usize>, data: Seq<CVec<F64>>, n: int, pt: Seq<F64>, rad: real) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) < n && dist(data[r[k] as int]@, pt) <= rad
    &&& dupfree(r)
    &&& forall|i: int| 0 <= i < n && dist((#[trigger] data[i])@, pt) <= rad ==> r.contains(i as usize)
}
pub proof fn lem_index_list(q: Seq<KE>, r: Seq<usize>, data: Seq<CVec<F64>>, n: int, pt: Seq<F64>, rad: real)
    requires r.len() == q.len(), forall|k: int| 0 <= k < q.len() ==> (#[trigger] r[k]) == q[k].1, 0 <= n <= MAXLEN,
        forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).1 < n && q[k].0 == data[q[k].1 as int] && within(pt, rad)(q[k]),
        forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> q[i].1 != q[j].1,
        forall|i: int| 0 <= i < n && within(pt, rad)((#[trigger] data[i], i as usize)) ==> exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == i,
    ensures index_list(r, data, n, pt, rad)
{
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < n && dist(data[r[k] as int]@, pt) <= rad by { assert(q[k].1 < n); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i] != r[j] by { assert(q[i].1 != q[j].1); }
    assert forall|i: int| 0 <= i < n && dist((#[trigger] data[i])@, pt) <= rad implies r.contains(i as usize) by {
        assert(within(pt, rad)((data[i], i as usize)));
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == i; assert(r[k] == i as usize);
    }
}
