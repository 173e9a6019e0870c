# ---------------------------------------------------------------- sortBySecond
@fn sort_by_second
cxx: utils::sortBySecond
file: Utils/utils.cpp
sig: const std::pair<std::set<unsigned int>, double> &; const std::pair<std::set<unsigned int>, double> &
params: a b
ensures:
    ret == (a.1@ < b.1@),
@end

# ---------------------------------------------------------------- set algebra
@fn set_xor
cxx: utils::setXOR
file: Utils/utils.cpp
sig: std::set<unsigned int> &; std::set<unsigned int> &
params: a b
ensures:
    ret.s() =~= symdiff(old(a).s(), old(b).s()), *final(a) == *old(a), *final(b) == *old(b),
at entry:
    proof { lem_set_sorted(*a); lem_set_sorted(*b); }
@end

@fn set_intersect_v
cxx: utils::setIntersect
file: Utils/utils.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>; bool
params: v1 v2 isSorted
requires:
    dupfree(v1@), dupfree(v2@), isSorted ==> sorted_le(v1@) && sorted_le(v2@),
ensures:
    sorted_lt(ret@),
    forall|x: u32| #[trigger] ret@.contains(x) <==> v1@.contains(x) && v2@.contains(x),
at entry:
    proof { lem_sorted_dupfree_u32(v1@); }
at return:
    proof { lem_sorted_dupfree_u32(v1@); }
@end

@fn set_intersect_s
cxx: utils::setIntersect
file: Utils/utils.cpp
sig: std::set<unsigned int>; std::set<unsigned int>; bool
params: v1 v2 isSorted
ensures:
    ret.s() =~= v1.s().intersect(v2.s()),
at entry:
    proof { lem_set_sorted(v1); lem_set_sorted(v2); }
@end

@fn intersect_v
cxx: utils::intersect
file: Utils/utils.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>; bool
params: v1 v2 isSorted
requires:
    dupfree(v1@), dupfree(v2@), isSorted ==> sorted_le(v1@) && sorted_le(v2@),
ensures:
    sorted_lt(ret.0@), sorted_lt(ret.1@),
    symdiff(v1@.to_set(), v2@.to_set()).len() == 2 ==> ret.0@.to_set() =~= symdiff(v1@.to_set(), v2@.to_set()) && ret.1@.to_set() =~= v1@.to_set().union(v2@.to_set()),
    symdiff(v1@.to_set(), v2@.to_set()).len() != 2 ==> ret.0@.len() == 0 && ret.1@.len() == 0,
at return:
    proof { if v1_0@ == v2_0@ { assert(symdiff(v1_0@.to_set(), v2_0@.to_set()) =~= Set::<u32>::empty()); } else { lem_sorted_set_len(retTemp.0@); assert(retTemp.0@.to_set() =~= symdiff(v1_0@.to_set(), v2_0@.to_set())); } }
@end

@fn symmetric_diff_v
cxx: utils::symmetricDiff
file: Utils/utils.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>; bool
params: v1 v2 isSorted
requires:
    dupfree(v1@), dupfree(v2@), isSorted ==> sorted_le(v1@) && sorted_le(v2@),
ensures:
    sorted_lt(ret@), ret@.to_set() =~= symdiff(v1@.to_set(), v2@.to_set()),
@end

@fn symmetric_diff_s
cxx: utils::symmetricDiff
file: Utils/utils.cpp
sig: std::set<unsigned int>; std::set<unsigned int>; bool
params: v1 v2 isSorted
ensures:
    sorted_lt(ret@), ret@.to_set() =~= symdiff(v1.s(), v2.s()),
at entry:
    proof { lem_set_sorted(v1); lem_set_sorted(v2); }
@end

@fn set_union_v
cxx: utils::setUnion
file: Utils/utils.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>; bool
params: v1 v2 isSorted
ensures:
    dupfree(v1@) && dupfree(v2@) && (isSorted ==> sorted_le(v1@) && sorted_le(v2@)) ==> sorted_lt(ret@) && ret@.to_set() =~= v1@.to_set().union(v2@.to_set()),
at entry:
    proof { lem_sorted_dupfree_u32(v1@); }
at return:
    proof { lem_sorted_dupfree_u32(v1@); }
@end

@fn get_subsets_sd
cxx: utils::getSubsets
file: Utils/utils.cpp
sig: std::set<unsigned int>; int
params: set dim
ensures:
    dupfree(ret@),
    forall|t: CSet<u32>| #[trigger] ret@.contains(t) <==> t.s().subset_of(set.s()) && t.s().len() == dim,
loop 1 invariant:
    enumerates(subset@, set@.take($i as int).to_set()), set@.len() <= MAXLEN,
loop 1 decreases: set@.len() - $i
at loop1.before:
    let ln = set.len();
    proof { lem_enum_init(subset@, set); lem_set_sorted(set); }
at loop1.begin:
    let ghost sub0 = subset@;
loop 2 invariant:
    j <= subsetTemp@.len() <= MAXLEN, subsetTemp@.len() == sub0.len(), subset@ == sub0,
    forall|k: int| 0 <= k < j ==> (#[trigger] subsetTemp@[k]).s() == sub0[k].s().insert(entry),
    forall|k: int| j <= k < sub0.len() ==> (#[trigger] subsetTemp@[k]) == sub0[k],
loop 2 decreases: subsetTemp@.len() - j
at loop2.before:
    let sl = subsetTemp.len();
loop 3 invariant:
    subset@ == sub0 + subsetTemp@.take($i as int),
loop 3 decreases: subsetTemp@.len() - $i
at loop3.after:
    proof { assert(subsetTemp@.take(subsetTemp@.len() as int) =~= subsetTemp@); lem_take_step(set@, i as int); lem_enum_step(sub0, subsetTemp@, set@.take(i as int).to_set(), entry); }
at loop3.before:
    proof { assert(subsetTemp@.take(0) =~= Seq::<CSet<u32>>::empty()); assert(sub0 + Seq::<CSet<u32>>::empty() =~= sub0); }
at loop3.end:
    proof { assert(subset@ =~= sub0 + subsetTemp@.take($i as int + 1)); }
loop 4 invariant:
    retSubset@ == with_size(subset@.take($i as int), dim as int),
at loop4.before:
    proof { assert(set@.take(set@.len() as int) =~= set@); assert(set@.to_set() =~= set.s()); lem_enum_final(subset@, set.s(), dim as int); reveal(Seq::filter); }
at loop4.end:
    proof { lem_filter_step(subset@, $i as int, dim as int); }
at return:
    proof { assert(subset@.take(subset@.len() as int) =~= subset@); }
@end

@fn get_subsets_s
cxx: utils::getSubsets
file: Utils/utils.cpp
sig: std::set<unsigned int>
params: set
ensures:
    dupfree(ret@),
    forall|t: CSet<u32>| #[trigger] ret@.contains(t) <==> t.s().subset_of(set.s()) && t.s().len() == set.s().len() - 1,
loop 1 invariant:
    enumerates(subset@, set@.take($i as int).to_set()), set@.len() <= MAXLEN,
loop 1 decreases: set@.len() - $i
at loop1.before:
    let ln = set.len();
    proof { lem_enum_init(subset@, set); lem_set_sorted(set); }
at loop1.begin:
    let ghost sub0 = subset@;
loop 2 invariant:
    j <= subsetTemp@.len() <= MAXLEN, subsetTemp@.len() == sub0.len(), subset@ == sub0,
    forall|k: int| 0 <= k < j ==> (#[trigger] subsetTemp@[k]).s() == sub0[k].s().insert(entry),
    forall|k: int| j <= k < sub0.len() ==> (#[trigger] subsetTemp@[k]) == sub0[k],
loop 2 decreases: subsetTemp@.len() - j
at loop2.before:
    let sl = subsetTemp.len();
loop 3 invariant:
    subset@ == sub0 + subsetTemp@.take($i as int),
loop 3 decreases: subsetTemp@.len() - $i
at loop3.after:
    proof { assert(subsetTemp@.take(subsetTemp@.len() as int) =~= subsetTemp@); lem_take_step(set@, i as int); lem_enum_step(sub0, subsetTemp@, set@.take(i as int).to_set(), entry); }
at loop3.before:
    proof { assert(subsetTemp@.take(0) =~= Seq::<CSet<u32>>::empty()); assert(sub0 + Seq::<CSet<u32>>::empty() =~= sub0); }
at loop3.end:
    proof { assert(subset@ =~= sub0 + subsetTemp@.take($i as int + 1)); }
loop 4 invariant:
    retSubset@ == with_size(subset@.take($i as int), set.s().len() - 1),
at loop4.before:
    proof { assert(set@.take(set@.len() as int) =~= set@); assert(set@.to_set() =~= set.s()); lem_enum_final(subset@, set.s(), set.s().len() - 1); reveal(Seq::filter); }
at loop4.end:
    proof { lem_filter_step(subset@, $i as int, set.s().len() - 1); }
at return:
    proof { assert(subset@.take(subset@.len() as int) =~= subset@); }
@end

@fn get_subsets_v
cxx: utils::getSubsets
file: Utils/utils.cpp
sig: std::vector<unsigned int>
params: set
requires:
    dupfree(set@),
ensures:
    dupfree(ret@),
    forall|t: CVec<u32>| #[trigger] ret@.contains(t) <==> subseq_of(t@, set@) && t@.len() == set@.len() - 1,
loop 1 invariant:
    venumerates(subset@, set@.take($i as int)), set@.len() <= MAXLEN,
loop 1 decreases: set@.len() - $i
at loop1.before:
    let ln = set.len();
    proof { lem_venum_init(subset@, set@); }
at loop1.begin:
    let ghost sub0 = subset@;
loop 2 invariant:
    j <= subsetTemp@.len() <= MAXLEN, subsetTemp@.len() == sub0.len(), subset@ == sub0,
    forall|k: int| 0 <= k < j ==> (#[trigger] subsetTemp@[k])@ == sub0[k]@.push(entry),
    forall|k: int| j <= k < sub0.len() ==> (#[trigger] subsetTemp@[k]) == sub0[k],
loop 2 decreases: subsetTemp@.len() - j
at loop2.before:
    let sl = subsetTemp.len();
loop 3 invariant:
    subset@ == sub0 + subsetTemp@.take($i as int),
loop 3 decreases: subsetTemp@.len() - $i
at loop3.after:
    proof { assert(subsetTemp@.take(subsetTemp@.len() as int) =~= subsetTemp@); assert(set@.take(i + 1) =~= set@.take(i as int).push(set@[i as int])); assert(!set@.take(i as int).contains(set@[i as int])); lem_venum_step(sub0, subsetTemp@, set@.take(i as int), entry); }
at loop3.before:
    proof { assert(subsetTemp@.take(0) =~= Seq::<CVec<u32>>::empty()); assert(sub0 + Seq::<CVec<u32>>::empty() =~= sub0); }
at loop3.end:
    proof { assert(subset@ =~= sub0 + subsetTemp@.take($i as int + 1)); }
loop 4 invariant:
    retSubset@ == subset@.take($i as int).filter(|z: CVec<u32>| z@.len() == set@.len() - 1),
at loop4.before:
    let ghost keep = |z: CVec<u32>| z@.len() == set@.len() - 1;
    proof { assert(set@.take(set@.len() as int) =~= set@); lem_venum_final(subset@, set@, keep); reveal(Seq::filter); }
at loop4.end:
    proof { reveal(Seq::filter); assert(subset@.take($i + 1).drop_last() =~= subset@.take($i as int)); assert(subset@.take($i + 1).last() == subset@[$i as int]); }
at return:
    proof { assert(subset@.take(subset@.len() as int) =~= subset@); }
@end

# ---------------------------------------------------------------- distances
@fn vectors_distance
cxx: utils::vectors_distance
file: Utils/utils.cpp
sig: const std::vector<double> &; const std::vector<double> &
params: a b
requires:
    b@.len() == 0 || a@.len() <= b@.len(),
ensures:
    ret@ == dist(a@, b@),
loop 1 invariant:
    temp@.len() == $i, rsum(temp@, 0real) == sqdist(a@.take($i as int), b@),
at loop1.begin:
    let ghost temp0 = temp@;
at loop1.end:
    proof { assert(a@.take($i + 1).drop_last() =~= a@.take($i as int)); lem_rsum_push(temp0, 0real, r__); }
at return:
    proof { if b@.len() != 0 { assert(a@.take(a@.len() as int) =~= a@); } }
@end

@fn vectors_distance_scalar
cxx: utils::vectors_distance
file: Utils/utils.cpp
sig: const double &; const double &
params: a b
ensures:
    ret@ == (a@ - b@) * (a@ - b@),
@end

@fn nearest_neighbors
cxx: utils::nearestNeighbors
file: Utils/utils.cpp
sig: std::vector<double> &; std::vector<std::vector<double>> &
params: point pointcloud
requires:
    forall|k: int| 0 <= k < old(pointcloud)@.len() ==> (#[trigger] old(pointcloud)@[k])@.len() == old(point)@.len(),
ensures:
    ret@.len() == old(pointcloud)@.len(),
    forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k])@ == dist(old(point)@, old(pointcloud)@[k]@),
    *final(point) == *old(point), *final(pointcloud) == *old(pointcloud),
loop 1 invariant:
    retVal@.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] retVal@[k])@ == dist(point@, pointcloud@[k]@),
@end

@fn compute_max_radius
cxx: utils::computeMaxRadius
file: Utils/utils.cpp
sig: int; std::vector<std::vector<double>>; std::vector<std::vector<double>>; std::vector<unsigned int>
params: k centroids originalData labels
requires:
    labels@.len() <= originalData@.len(),
    forall|i: int| 0 <= i < labels@.len() ==> (#[trigger] labels@[i]) < centroids@.len(),
    forall|i: int| 0 <= i < labels@.len() ==> (#[trigger] originalData@[i])@.len() == centroids@[labels@[i] as int]@.len(),
ensures:
    forall|i: int| 0 <= i < labels@.len() ==> #[trigger] dist(originalData@[i]@, centroids@[labels@[i] as int]@) <= ret@,
    labels@.len() == 0 ==> ret@ == 0real,
    labels@.len() > 0 ==> exists|i: int| 0 <= i < labels@.len() && #[trigger] dist(originalData@[i]@, centroids@[labels@[i] as int]@) == ret@,
loop 1 invariant:
    i <= labels@.len() <= MAXLEN, maxRadius@ >= 0real,
    forall|m: int| 0 <= m < i ==> #[trigger] dist(originalData@[m]@, centroids@[labels@[m] as int]@) <= maxRadius@,
    i == 0 ==> maxRadius@ == 0real,
    i > 0 ==> exists|m: int| 0 <= m < i && #[trigger] dist(originalData@[m]@, centroids@[labels@[m] as int]@) == maxRadius@,
loop 1 decreases: labels@.len() - i
at loop1.before:
    let ln = labels.len();
at loop1.begin:
    proof { lem_dist_nonneg(originalData@[i as int]@, centroids@[labels@[i as int] as int]@); }
at loop1.end:
    proof { let m = i as int; assert(dist(originalData@[m]@, centroids@[labels@[m] as int]@) <= maxRadius@); }
@end
