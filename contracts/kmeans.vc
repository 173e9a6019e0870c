@fn km_run
cxx: kMeansPlusPlus::runPreprocessor
file: Preprocessing/kMeansPlusPlus.cpp
self: mut KMeansPlusPlus
params: inData
requires:
    inData.originalData@.len() > 0, same_dim(inData.originalData@, inData.originalData@[0]@.len() as int), inData.originalData@[0]@.len() <= MAXLEN,
    old(this).configured ==> old(this).num_clusters >= 1 && old(this).num_iterations >= 1,
ensures:
    !old(this).configured ==> ret == inData,
    old(this).configured ==> km_result(inData.originalData@, old(this).num_clusters as int, inData.originalData@[0]@.len() as int, old(this).num_iterations as int, ret.originalData@, ret.originalLabels@),
at entry:
    let ghost data = inData.originalData@;
    let ghost n = data.len() as int;
    let ghost k0 = this.num_clusters as int;
    let ghost it0 = this.num_iterations as int;
    let ghost dim = data[0]@.len() as int;
    let ghost mut tr = Seq::<KStep>::empty();
    let ghost mut start = Seq::<CVec<F64>>::empty();
    proof { assert(data[0]@.len() == dim); }
    let lnd = inData.originalData.len();
loop 1 invariant:
    this.num_clusters == k0, this.num_iterations == it0, k0 >= 1, it0 >= 1, inData == inData_0, inData.originalData@ == data, n == data.len(), 1 <= n <= MAXLEN, same_dim(data, dim), dim <= MAXLEN,
    distribution.0 == 0, distribution.1 == n - 1, center_initial@.len() == dim,
    k <= k0 - 1, 1 <= tempCentroids@.len() <= k + 1, kstart(data, k0, tempCentroids@), data[0]@.len() == dim,
loop 1 decreases: k0 - k
at loop1.begin:
    let ghost tc0 = tempCentroids@;
at decl.center_next:
    proof { assert(data[index_next as int]@.len() == dim); }
loop 2 invariant:
    this.num_clusters == k0, this.num_iterations == it0, inData == inData_0, inData.originalData@ == data, n == data.len(), 1 <= n <= MAXLEN, same_dim(data, dim),
    0 <= index_next < n, center_next == data[index_next as int], center_next@.len() == dim, center_initial@.len() == dim,
    j <= n - 1, k < k0 - 1, tempCentroids@ == tc0,
loop 2 ensures:
    tempCentroids@ == tc0 || tempCentroids@ == tc0.push(data[index_next as int]),
loop 2 decreases: n - j
at loop2.begin:
    proof { assert(data[j as int]@.len() == dim); }
at loop1.end:
    proof { lem_kstart(data, k0, tc0, tempCentroids@); }
loop 3 invariant:
    this.num_clusters == k0, this.num_iterations == it0, k0 >= 1, it0 >= 1, inData == inData_0, inData.originalData@ == data, n == data.len(), 1 <= n <= MAXLEN, same_dim(data, dim),
    0 <= i <= n, kstart(data, k0, tempCentroids@), dim == data[0]@.len(),
loop 3 decreases: n - i
at loop3.begin:
    let ghost tc0 = tempCentroids@;
at loop3.end:
    proof { if tempCentroids@ != tc0 { assert(tempCentroids@ =~= tc0.push(data[i - 1])); lem_kstart(data, k0, tc0, tempCentroids@); } }
loop 4 except:
    tr.len() == z, z <= it0, tr.len() > 0 ==> lastLabels@ == tr.last().lab && tempCentroids@ == tr.last().cent,
    tr.len() == 0 ==> tempCentroids@ == start && lastLabels@.len() == 0,
loop 4 invariant:
    this.num_clusters == k0, this.num_iterations == it0, k0 >= 1, it0 >= 1, inData == inData_0, inData.originalData@ == data, n == data.len(), 1 <= n <= MAXLEN, same_dim(data, dim), dim <= MAXLEN, dim == data[0]@.len(),
    0 <= z <= it0, kstart(data, k0, start), kchain(data, k0, dim, start, tr), 1 <= tempCentroids@.len() <= k0, same_dim(tempCentroids@, dim),
loop 4 ensures:
    km_trace(data, k0, dim, it0, start, tr, tempCentroids@, lastLabels@),
loop 4 decreases: it0 - z
at loop3.after:
    proof { start = tempCentroids@; lem_kstart_dim(data, k0, start, dim); }
at loop4.begin:
    let ghost prev = tempCentroids@;
    let ghost tr0 = tr;
loop 5 invariant:
    this.num_clusters == k0, this.num_iterations == it0, inData == inData_0, inData.originalData@ == data, n == data.len(), 1 <= n <= MAXLEN, same_dim(data, dim), dim <= MAXLEN,
    tempCentroids@ == prev, 1 <= prev.len() <= k0, same_dim(prev, dim), j <= n, curLabels@.len() == j,
    summedClusters@.len() == k0, counts@.len() == k0, summedCentroidVectors@.len() == k0, same_dim(summedCentroidVectors@, dim),
    forall|x: int| 0 <= x < j ==> near_lab((#[trigger] data[x])@, prev, curLabels@[x] as int), forall|x: int| 0 <= x < j ==> (#[trigger] curLabels@[x]) < k0,
    forall|c: int, e: int| 0 <= c < k0 && 0 <= e < dim ==> (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e),
    forall|c: int| 0 <= c < k0 ==> (#[trigger] counts@[c])@ == kcnt(curLabels@, c) as int as real,
loop 5 decreases: n - j
at loop5.begin:
    let ghost lab0 = curLabels@;
    let ghost sum0 = summedCentroidVectors@;
    let ghost cnt0 = counts@;
    proof { assert(data[j as int]@.len() == dim); }
loop 6 invariant:
    this.num_clusters == k0, inData.originalData@ == data, n == data.len(), j < n <= MAXLEN, data[j as int]@.len() == dim, tempCentroids@ == prev, 1 <= prev.len() <= k0, same_dim(prev, dim), dim <= MAXLEN,
    c <= prev.len(), 0 <= clusterIndex < prev.len(), minDist@ <= dbl_max(),
    forall|x: int| 0 <= x < c ==> minDist@ <= dist(data[j as int]@, (#[trigger] prev[x])@),
    minDist@ < dbl_max() ==> minDist@ == dist(data[j as int]@, prev[clusterIndex as int]@),
loop 6 decreases: prev.len() - c
at loop6.begin:
    proof { assert(prev[c as int]@.len() == dim); }
at loop6.after:
    proof { assert(near_lab(data[j as int]@, prev, clusterIndex as int)); assert(clusterIndex < k0); assert(sum0[clusterIndex as int]@.len() == dim); }
loop 7 invariant:
    this.num_clusters == k0, inData.originalData@ == data, n == data.len(), j < n <= MAXLEN, data[j as int]@.len() == dim, clusterIndex < k0, dim <= MAXLEN, 0 <= d <= dim,
    summedCentroidVectors@.len() == k0, same_dim(summedCentroidVectors@, dim), sum0.len() == k0,
    forall|c: int| 0 <= c < k0 && c != clusterIndex ==> (#[trigger] summedCentroidVectors@[c]) == sum0[c],
    forall|e: int| 0 <= e < dim ==> (#[trigger] summedCentroidVectors@[clusterIndex as int]@[e])@ == sum0[clusterIndex as int]@[e]@ + (if e < d { data[j as int]@[e]@ } else { 0real }),
loop 7 decreases: dim - d
at loop7.begin:
    proof { assert(summedCentroidVectors@[clusterIndex as int]@.len() == dim); }
at loop5.end:
    proof {
        lem_kpush(data, lab0, clusterIndex);
        assert(curLabels@ == lab0.push(clusterIndex));
        assert forall|c: int, e: int| 0 <= c < k0 && 0 <= e < dim implies (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e) by {
            assert(sum0[c]@[e]@ == ksum(data, lab0, c, e));
            if c != clusterIndex { assert(summedCentroidVectors@[c] == sum0[c]); }
        }
        assert forall|c: int| 0 <= c < k0 implies (#[trigger] counts@[c])@ == kcnt(curLabels@, c) as int as real by { assert(cnt0[c]@ == kcnt(lab0, c) as int as real); }
    }
loop 8 invariant:
    this.num_clusters == k0, inData.originalData@ == data, 0 <= i <= k0, k0 >= 1, summedCentroidVectors@.len() == k0, same_dim(summedCentroidVectors@, dim), counts@.len() == k0, dim <= MAXLEN,
    forall|c: int| 0 <= c < k0 ==> (#[trigger] counts@[c])@ == kcnt(curLabels@, c) as int as real,
    forall|c: int, e: int| 0 <= c < i && 0 <= e < dim && kcnt(curLabels@, c) > 0 ==> (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e) / (kcnt(curLabels@, c) as int as real),
    forall|c: int, e: int| i <= c < k0 && 0 <= e < dim ==> (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e),
loop 8 decreases: k0 - i
at loop8.begin:
    let ghost sum1 = summedCentroidVectors@;
    proof { assert(summedCentroidVectors@[i as int]@.len() == dim); assert(summedCentroidVectors@[0]@.len() == dim); }
loop 9 invariant:
    this.num_clusters == k0, inData.originalData@ == data, 0 <= i < k0, summedCentroidVectors@.len() == k0, same_dim(summedCentroidVectors@, dim), counts@.len() == k0, dim <= MAXLEN, 0 <= d <= dim, sum1.len() == k0,
    counts@[i as int]@ == kcnt(curLabels@, i as int) as int as real, summedCentroidVectors@[0]@.len() == dim,
    forall|c: int| 0 <= c < k0 && c != i ==> (#[trigger] summedCentroidVectors@[c]) == sum1[c],
    forall|e: int| d <= e < dim ==> (#[trigger] summedCentroidVectors@[i as int]@[e])@ == ksum(data, curLabels@, i as int, e),
    forall|e: int| 0 <= e < d && kcnt(curLabels@, i as int) > 0 ==> (#[trigger] summedCentroidVectors@[i as int]@[e])@ == ksum(data, curLabels@, i as int, e) / (kcnt(curLabels@, i as int) as int as real),
loop 9 decreases: dim - d
at loop9.begin:
    proof { assert(summedCentroidVectors@[i as int]@.len() == dim); }
at loop9.end:
    proof { assert(summedCentroidVectors@[0]@.len() == dim); }
at loop8.end:
    proof {
        assert forall|c: int, e: int| 0 <= c < i + 1 && 0 <= e < dim && kcnt(curLabels@, c) > 0 implies (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e) / (kcnt(curLabels@, c) as int as real) by {
            if c != i { assert(summedCentroidVectors@[c] == sum1[c]); assert(sum1[c]@[e]@ == ksum(data, curLabels@, c, e) / (kcnt(curLabels@, c) as int as real)); }
        }
        assert forall|c: int, e: int| i + 1 <= c < k0 && 0 <= e < dim implies (#[trigger] summedCentroidVectors@[c]@[e])@ == ksum(data, curLabels@, c, e) by { assert(summedCentroidVectors@[c] == sum1[c]); assert(sum1[c]@[e]@ == ksum(data, curLabels@, c, e)); }
    }
at if.5.before:
    proof {
        let s = KStep { lab: curLabels@, cent: tempCentroids@ };
        assert(kround(data, k0, dim, prev, s));
        tr = tr0.push(s);
        assert(kchain(data, k0, dim, start, tr)) by { assert forall|j: int| 0 <= j < tr.len() implies kround(data, k0, dim, if j == 0 { start } else { tr[j - 1].cent }, #[trigger] tr[j]) by { if j < tr0.len() { assert(tr[j] == tr0[j]); if j > 0 { assert(tr[j - 1] == tr0[j - 1]); } } else if j > 0 { assert(tr[j - 1] == tr0.last()); } } }
    }
at if.5.then:
    proof { assert(tr0.len() > 0); assert(tr[tr.len() - 2] == tr0.last()); lem_kconv(data, k0, dim, start, tr); assert(curLabels@ == lastLabels@); }
at return.2:
    proof { let l = tr.last(); let j = tr.len() - 1; assert(km_trace(data, k0, dim, it0, start, tr, tempCentroids@, lastLabels@)); assert(ret_.originalData@ == tempCentroids@); assert(ret_.originalLabels@ == lastLabels@); assert(kround(data, k0, dim, if j == 0 { start } else { tr[j - 1].cent }, tr[j])); assert(km_result(data, k0, dim, it0, ret_.originalData@, ret_.originalLabels@)); }
@end
