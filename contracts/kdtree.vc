@fn kdnode_ctor_pi
cxx: kdNode::kdNode
file: Preprocessing/kdTree.cpp
sig: const std::pair<std::vector<double>, unsigned long> &; const std::shared_ptr<kdNode> &; const std::shared_ptr<kdNode> &
self: ctor KdNode
params: pi left_ right_
ensures:
    ret.x == pi.0, ret.index == pi.1, ret.left == *left_, ret.right == *right_,
@end

@fn kdnode_ctor_pt
cxx: kdNode::kdNode
file: Preprocessing/kdTree.cpp
sig: const std::vector<double> &; const unsigned long &; const std::shared_ptr<kdNode> &; const std::shared_ptr<kdNode> &
self: ctor KdNode
params: pt idx_ left_ right_
ensures:
    ret.x == *pt, ret.index == idx_, ret.left == *left_, ret.right == *right_,
@end

@fn kd_new
cxx: newKdNodePtr
file: Preprocessing/kdTree.cpp
sig:
ensures:
    ret.nn(), ret.nv().x@.len() == 0,
@end

@fn kd_make
cxx: kdTree::makeTree
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: begin end length level
iters: arr
requires:
    begin + length == end, end <= old(arr)@.len(), old(arr)@.len() <= MAXLEN,
    length > 0 ==> level < old(arr)@[begin as int].0@.len(),
    forall|i: int| begin <= i < end ==> (#[trigger] old(arr)@[i]).0@.len() == old(arr)@[begin as int].0@.len(),
ensures:
    final(arr)@.len() == old(arr)@.len(),
    forall|i: int| #![trigger final(arr)@[i]] 0 <= i < begin || end <= i < final(arr)@.len() ==> final(arr)@[i] == old(arr)@[i],
    final(arr)@.subrange(begin as int, end as int).to_multiset() == old(arr)@.subrange(begin as int, end as int).to_multiset(),
    ms(ret) == old(arr)@.subrange(begin as int, end as int).to_multiset(), ret.nn(),
    length == 0 ==> !live(ret), length > 0 ==> kd_ok(ret, level as int, old(arr)@[begin as int].0@.len() as int),
decreases: length
at entry:
    let ghost a0 = arr@; let ghost d0 = if length > 0 { arr@[begin as int].0@.len() } else { 0 };
    proof { lem_ms_empty(); if length == 0 { assert(a0.subrange(begin as int, end as int) =~= Seq::empty()); } }
at if.2.after:
    let ghost a1 = arr@; let ghost mid = (begin + length / 2) as int; let ghost bb = begin as int; let ghost ee = end as int;
    proof {
        if length <= 1 { assert(a1 == a0); }
        assert(a1.subrange(bb, ee).to_multiset() =~= a0.subrange(bb, ee).to_multiset());
        assert forall|i: int| bb <= i < ee implies (#[trigger] a1[i]).0@.len() == d0 by { lem_ms_mem(a1, bb, ee, a1[i]); lem_ms_mem(a0, bb, ee, a1[i]); }
        assert forall|i: int, j: int| #![trigger a1[i], a1[j]] bb <= i < j < ee implies !(a1[j].0@[level as int]@ < a1[i].0@[level as int]@) by { }
        lem_ms_split(a1, bb, mid, ee);
    }
at if.3.after:
    let ghost a2 = arr@;
    proof {
        assert(a2.subrange(mid + 1, ee) =~= a1.subrange(mid + 1, ee)); assert(a2[mid] == a1[mid]);
        assert(a2.subrange(bb, mid).to_multiset() =~= a1.subrange(bb, mid).to_multiset());
        if length / 2 == 0 { assert(a1.subrange(bb, mid) =~= Seq::empty()); }
        assert(ms(left) =~= a1.subrange(bb, mid).to_multiset());
    }
at if.4.after:
    let ghost a3 = arr@;
    proof {
        assert(a3.subrange(bb, mid) =~= a2.subrange(bb, mid)); assert(a3[mid] == a1[mid]);
        if length - length / 2 - 1 == 0 { assert(a1.subrange(mid + 1, ee) =~= Seq::empty()); }
        assert(ms(right) =~= a1.subrange(mid + 1, ee).to_multiset());
        assert(a3.subrange(mid + 1, ee).to_multiset() =~= a1.subrange(mid + 1, ee).to_multiset());
        lem_ms_split(a3, bb, mid, ee);
        assert forall|e: KE| #[trigger] ms(left).count(e) > 0 implies e.0@.len() == d0 && e.0@[level as int]@ <= a1[mid].0@[level as int]@ by {
            lem_ms_mem(a1, bb, mid, e); let i = choose|i: int| bb <= i < mid && #[trigger] a1[i] == e; assert(!(a1[mid].0@[level as int]@ < a1[i].0@[level as int]@));
        }
        assert forall|e: KE| #[trigger] ms(right).count(e) > 0 implies e.0@.len() == d0 && e.0@[level as int]@ >= a1[mid].0@[level as int]@ by {
            lem_ms_mem(a1, mid + 1, ee, e); let i = choose|i: int| mid + 1 <= i < ee && #[trigger] a1[i] == e; assert(!(a1[i].0@[level as int]@ < a1[mid].0@[level as int]@));
        }
    }
at return.2:
    proof {
        assert(ms(ret_) =~= a0.subrange(bb, ee).to_multiset());
        assert(ret_.nv().left == left && ret_.nv().right == right && ret_.nv().x == a1[mid].0);
        assert(a1[mid].0@.len() == d0);
        let nl = (level + 1) % (d0 as int);
        assert(kd_ok(left, nl, d0 as int));
        assert(kd_ok(right, nl, d0 as int));
    }
@end

@fn kd_ctor
cxx: kdTree::kdTree
file: Preprocessing/kdTree.cpp
sig: std::vector<std::vector<double>>; int
self: ctor KdTree
params: inData size
requires:
    0 <= size <= inData@.len(), inData@.len() > 0 ==> inData@[0]@.len() >= 1 && same_dim(inData@, inData@[0]@.len() as int),
ensures:
    inData@.len() > 0 ==> tree_of(ret, inData@, if size == 0 { inData@.len() as int } else { size as int }, inData@[0]@.len() as int),
    inData@.len() == 0 ==> ret.root.nn() && !live(ret.root),
loop 1 invariant:
    inData == inData_0, 0 <= size <= inData@.len() <= MAXLEN, i <= size, arr@ =~= indexed(inData@, i as int), size == (if size_0 == 0 { inData@.len() as int } else { size_0 as int }),
loop 1 decreases: size - i
at loop1.before:
    let ln = inData.len();
at loop1.begin:
    proof { assert(i < inData@.len()); }
at loop1.after:
    proof { assert(arr@.subrange(0, arr@.len() as int) =~= arr@); assert(arr@ =~= indexed(inData@, arr@.len() as int)); assert(arr@.len() == size); }
@end

@fn kd_find_nearest
cxx: kdTree::findNearest
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: branch pt level best bestDist
requires:
    kd_ok(*branch, level as int, pt@.len() as int), pt@.len() >= 1, level < pt@.len(), live(*best), best.nv().x@.len() == pt@.len(), bestDist@ == dist(best.nv().x@, pt@),
    pt@.len() <= MAXLEN,
ensures:
    !live(*branch) ==> ret.nn() && !live(ret),
    live(*branch) ==> live(ret) && ret.nv().x@.len() == pt@.len() && (ms(*branch).count(ke(ret)) > 0 || ke(ret) == ke(*best)) && dist(ret.nv().x@, pt@) <= bestDist@
        && (forall|e: KE| #[trigger] ms(*branch).count(e) > 0 ==> dist(ret.nv().x@, pt@) <= dist(e.0@, pt@)),
decreases: branch
at if.1.after:
    proof { lem_near_step(*branch, level as int, pt@); }
    let ghost nl = branch.nv().left; let ghost nr = branch.nv().right;
at return.2:
    proof {
        assert forall|e: KE| #[trigger] ms(*branch).count(e) > 0 implies dist(ret_.nv().x@, pt@) <= dist(e.0@, pt@) by {
            lem_ms_node(*branch, e);
            assert(section == (if dx@ > 0real { nl } else { nr })); assert(other == (if dx@ > 0real { nr } else { nl }));
            if ms(section).count(e) > 0 { assert(live(section)); }
            else if ms(other).count(e) > 0 { assert(live(other)); assert(dist(e.0@, pt@) >= rabs(dx@)); }
            else { assert(e == ke(*branch)); }
        }
        lem_ms_node(*branch, ke(ret_));
    }
@end

@fn kd_nearest
cxx: kdTree::nearest
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt
requires:
    kd_ok(this.root, 0, pt@.len() as int), live(this.root),
at entry:
    let ln = pt.len();
ensures:
    live(ret), ms(this.root).count(ke(ret)) > 0,
    forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(ret.nv().x@, pt@) <= dist(e.0@, pt@),
@end

@fn kd_nearest_point
cxx: kdTree::nearestPoint
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt
requires:
    kd_ok(this.root, 0, pt@.len() as int), live(this.root),
ensures:
    exists|i: usize| #[trigger] ms(this.root).count((ret, i)) > 0,
    forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(ret@, pt@) <= dist(e.0@, pt@),
at return.1:
    proof { let t = choose|t: KdPtr| ms(this.root).count(#[trigger] ke(t)) > 0 && ke(t).0 == ret_ && forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(t.nv().x@, pt@) <= dist(e.0@, pt@); assert(ms(this.root).count((ret_, ke(t).1)) > 0); }
@end

@fn kd_nearest_index
cxx: kdTree::nearestIndex
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt
requires:
    kd_ok(this.root, 0, pt@.len() as int), live(this.root),
ensures:
    exists|x: CVec<F64>| #[trigger] ms(this.root).count((x, ret)) > 0 && forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(x@, pt@) <= dist(e.0@, pt@),
at return.1:
    proof { let t = choose|t: KdPtr| ms(this.root).count(#[trigger] ke(t)) > 0 && ke(t).1 == ret_ && forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(t.nv().x@, pt@) <= dist(e.0@, pt@); assert(ms(this.root).count((ke(t).0, ret_)) > 0); }
@end

@fn kd_nearest_pi
cxx: kdTree::nearestPointIndex
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt
requires:
    kd_ok(this.root, 0, pt@.len() as int), live(this.root),
ensures:
    ms(this.root).count(ret) > 0, forall|e: KE| #[trigger] ms(this.root).count(e) > 0 ==> dist(ret.0@, pt@) <= dist(e.0@, pt@),
@end

@fn kd_neigh_rec
cxx: kdTree::neighborhood
file: Preprocessing/kdTree.cpp
sig: const std::shared_ptr<kdNode> &; const std::vector<double> &; const double &; const unsigned long &
self: ref KdTree
params: branch pt rad level
requires:
    kd_ok(*branch, level as int, pt@.len() as int), 1 <= pt@.len() <= MAXLEN, level < pt@.len(),
ensures:
    ret@.to_multiset() =~= ms(*branch).filter(within(pt@, rad@)),
decreases: branch
at entry:
    proof { lem_ms_empty(); if !live(*branch) { lem_filter_none(ms(*branch), within(pt@, rad@)); } else { lem_neigh_step(*branch, level as int, pt@, rad@); } }
at call.push_back.1.before:
    proof { lem_ms_push(nbh@, ke(*branch)); }
at if.2.after:
    let ghost g1 = nbh@;
at call.insert.1.before:
    proof { lem_ms_concat(nbh@, nbh_s@); assert(nbh@.subrange(0, nbh@.len() as int) =~= nbh@); assert(nbh@.subrange(nbh@.len() as int, nbh@.len() as int) =~= Seq::empty()); assert(nbh@ + nbh_s@ + Seq::<KE>::empty() =~= nbh@ + nbh_s@); assert(nbh_s@.subrange(0, nbh_s@.len() as int) =~= nbh_s@); }
at call.insert.2.before:
    proof { lem_ms_concat(nbh@, nbh_o@); assert(nbh@.subrange(0, nbh@.len() as int) =~= nbh@); assert(nbh@.subrange(nbh@.len() as int, nbh@.len() as int) =~= Seq::empty()); assert(nbh@ + nbh_o@ + Seq::<KE>::empty() =~= nbh@ + nbh_o@); assert(nbh_o@.subrange(0, nbh_o@.len() as int) =~= nbh_o@); }
@end

@fn kd_neigh
cxx: kdTree::neighborhood
file: Preprocessing/kdTree.cpp
sig: const std::vector<double> &; const double &
self: ref KdTree
params: pt rad
requires:
    kd_ok(this.root, 0, pt@.len() as int), 1 <= pt@.len() <= MAXLEN,
ensures:
    ret@.to_multiset() =~= ms(this.root).filter(within(pt@, rad@)),
@end

@fn kd_neigh_points
cxx: kdTree::neighborhoodPoints
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt rad
requires:
    kd_ok(this.root, 0, pt@.len() as int), 1 <= pt@.len() <= MAXLEN,
ensures:
    exists|q: Seq<KE>| #[trigger] q.to_multiset() =~= ms(this.root).filter(within(pt@, rad@)) && ret@.len() == q.len() && forall|k: int| 0 <= k < q.len() ==> (#[trigger] ret@[k]) == q[k].0,
loop 1 invariant:
    nbhp@.len() == nbh@.len(), forall|k: int| 0 <= k < $i ==> (#[trigger] nbhp@[k]) == nbh@[k].0,
at return.1:
    proof { assert(nbh@.to_multiset() =~= ms(this.root).filter(within(pt@, rad@))); }
@end

@fn kd_neigh_indices
cxx: kdTree::neighborhoodIndices
file: Preprocessing/kdTree.cpp
self: ref KdTree
params: pt rad
requires:
    kd_ok(this.root, 0, pt@.len() as int), 1 <= pt@.len() <= MAXLEN,
ensures:
    exists|q: Seq<KE>| #[trigger] q.to_multiset() =~= ms(this.root).filter(within(pt@, rad@)) && ret@.len() == q.len() && forall|k: int| 0 <= k < q.len() ==> (#[trigger] ret@[k]) == q[k].1,
    forall|data: Seq<CVec<F64>>, n: int| #[trigger] tree_of(*this, data, n, pt@.len() as int) ==> index_list(ret@, data, n, pt@, rad@),
loop 1 invariant:
    nbhi@.len() == nbh@.len(), forall|k: int| 0 <= k < $i ==> (#[trigger] nbhi@[k]) == nbh@[k].1,
at return.1:
    proof {
        assert(nbh@.to_multiset() =~= ms(this.root).filter(within(pt@, rad@)));
        assert forall|data: Seq<CVec<F64>>, n: int| #[trigger] tree_of(*this, data, n, pt@.len() as int) implies index_list(ret_@, data, n, pt@, rad@) by {
            lem_indices(nbh@, data, n, within(pt@, rad@)); lem_index_list(nbh@, ret_@, data, n, pt@, rad@);
        }
    }
@end
