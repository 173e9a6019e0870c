@fn separate_partitions_label
cxx: utils::separatePartitions
file: Utils/utils.cpp
sig: int; std::vector<std::vector<double>>; std::vector<unsigned int>
params: k originalData labels
requires:
    k >= 0, labels@.len() <= originalData@.len(),
    forall|i: int| 0 <= i < labels@.len() ==> (#[trigger] labels@[i]) < k,
ensures:
    ret.0@.len() == k, ret.1@.len() == k,
    forall|c: int| #![trigger ret.0@[c]] #![trigger ret.1@[c]] 0 <= c < k ==> ret.0@[c]@ == sel_idx(labels@.len() as int, by_label(labels@, c)) && ret.1@[c]@ == sel_pts(originalData@, labels@.len() as int, by_label(labels@, c)),
loop 1 invariant:
    i <= labels@.len() <= MAXLEN, res@.len() == k, labres@.len() == k,
    forall|c: int| #![trigger labres@[c]] #![trigger res@[c]] 0 <= c < k ==> labres@[c]@ == sel_idx(i as int, by_label(labels@, c)) && res@[c]@ == sel_pts(originalData@, i as int, by_label(labels@, c)),
loop 1 decreases: labels@.len() - i
at loop1.before:
    let ln = labels.len();
@end

@fn separate_partitions_radius
cxx: utils::separatePartitions
file: Utils/utils.cpp
sig: double; std::vector<std::vector<double>>; std::vector<std::vector<double>>; std::vector<unsigned int>
params: rad centroids originalData labels
requires:
    labels@.len() <= originalData@.len(),
    forall|i: int, j: int| 0 <= i < labels@.len() && 0 <= j < centroids@.len() ==> (#[trigger] originalData@[i])@.len() == (#[trigger] centroids@[j])@.len(),
ensures:
    ret.0@.len() == centroids@.len(), ret.1@.len() == centroids@.len(),
    forall|c: int| #![trigger ret.0@[c]] #![trigger ret.1@[c]] 0 <= c < centroids@.len() ==> ret.0@[c]@ == sel_idx(labels@.len() as int, by_radius(originalData@, centroids@, rad@, c)) && ret.1@[c]@ == sel_pts(originalData@, labels@.len() as int, by_radius(originalData@, centroids@, rad@, c)),
loop 1 invariant:
    i <= labels@.len() <= MAXLEN, centroids@.len() <= MAXLEN, res@.len() == centroids@.len(), labres@.len() == centroids@.len(),
    forall|c: int| #![trigger labres@[c]] #![trigger res@[c]] 0 <= c < centroids@.len() ==> labres@[c]@ == sel_idx(i as int, by_radius(originalData@, centroids@, rad@, c)) && res@[c]@ == sel_pts(originalData@, i as int, by_radius(originalData@, centroids@, rad@, c)),
loop 1 decreases: labels@.len() - i
loop 2 invariant:
    j <= centroids@.len(), res@.len() == centroids@.len(), labres@.len() == centroids@.len(),
    forall|c: int| #![trigger labres@[c]] #![trigger res@[c]] 0 <= c < centroids@.len() ==> labres@[c]@ == sel_idx(if c < j { i + 1 } else { i as int }, by_radius(originalData@, centroids@, rad@, c)) && res@[c]@ == sel_pts(originalData@, if c < j { i + 1 } else { i as int }, by_radius(originalData@, centroids@, rad@, c)),
loop 2 decreases: centroids@.len() - j
at loop1.before:
    let ln = labels.len(); let cn = centroids.len();
@end

@fn separate_boundary_partitions
cxx: utils::separateBoundaryPartitions
file: Utils/utils.cpp
sig: std::vector<std::set<unsigned int>>; std::vector<std::vector<double>>; std::vector<unsigned int>
params: boundaryLists originalData labels
requires:
    labels@.len() >= originalData@.len(),
ensures:
    ret@.len() == boundaryLists@.len(),
    forall|c: int| 0 <= c < boundaryLists@.len() ==> (#[trigger] ret@[c])@ == sel_pts(originalData@, originalData@.len() as int, by_boundary(labels@, boundaryLists@, c)),
loop 1 invariant:
    i <= originalData@.len() <= MAXLEN, boundaryLists@.len() <= MAXLEN, res@.len() == boundaryLists@.len(),
    forall|c: int| 0 <= c < boundaryLists@.len() ==> (#[trigger] res@[c])@ == sel_pts(originalData@, i as int, by_boundary(labels@, boundaryLists@, c)),
loop 1 decreases: originalData@.len() - i
loop 2 invariant:
    j <= boundaryLists@.len(), res@.len() == boundaryLists@.len(),
    forall|c: int| 0 <= c < boundaryLists@.len() ==> (#[trigger] res@[c])@ == sel_pts(originalData@, if c < j { i + 1 } else { i as int }, by_boundary(labels@, boundaryLists@, c)),
loop 2 decreases: boundaryLists@.len() - j
at loop1.before:
    let ln = originalData.len(); let bn = boundaryLists.len();
@end
