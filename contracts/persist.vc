@fn fp_h0
cxx: fastPersistence::runPipe
file: Pipes/fastPersistence.cpp
self: mut FastPersistence
attrs: #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
requires:
    old(this).dim < i32::MAX, built(inData.complex),
ensures:
    // an empty complex: nothing is reported
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() == 0 ==> ret.bettiOutput == inData.bettiOutput,
    // the zero-dimensional intervals come first and are the merge tree of components
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() > 0 ==> exists|h: Seq<Bar>| #[trigger] higher(h)
        && ret.bettiOutput@ == h0text(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@, old(this).maxEpsilon@) + btext(h, h.len() as int),
    // and the table holds the same intervals, in the same order
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() > 0 ==> rows0(inData.bettiTable@, ret.bettiTable@, h0ends(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@, old(this).maxEpsilon)),
    ret.complex == work(inData.complex, old(this).dim as int), ret.originalData == inData.originalData, ret.stats == inData.stats, ret.weights == inData.weights,
at decl.edges:
    let ghost l0 = edges@;
    let ghost eps = this.maxEpsilon@;
at decl.bettis:
    let ghost tb0 = inData.bettiTable@;
    proof { lem_estr(); lem_rows0_init(tb0); }
at if.3.after:
    let ghost mut ends: Seq<F64> = Seq::<F64>::empty();
    let ghost l = edges@;
    let ghost e = lv(l, 1);
    let ghost f = lv(l, 0);
    let ghost n = f.len() as int;
    let ghost vs = verts(f, n);
    proof {
        lem_filtered_resize(l0, l);
        assert(flevel_ok(lv(l, 0), 0)); assert(flevel_ok(lv(l, 1), 1));
        lem_verts(f, n);
        assert forall|k: int| 0 <= k < e.len() implies (#[trigger] vx_(e, k)).subset_of(vs) && vx_(e, k).len() == 2 && n >= 2 by { lem_edge_verts(l, k); }
        lem_forest_init(e, vs);
    }
    let e_len = edges.at(1).len();
loop 1 decreases:
    this.dim - i
loop 2 except:
    forest(e, vs, edge_i as int, conSet@), mst@ == jw(e, edge_i as int), pivots@ == ji(e, edge_i as int), pivotIndex == edge_i, tempset.s().len() == 0,
loop 2 invariant:
    mst@.len() <= n, edges@ == l, bettis@.len() == 0, rows0(tb0, inData.bettiTable@, mst@), inData.bettiTable@.len() == tb0.len() + mst@.len(),
    inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
loop 2 ensures:
    mst@ == jw(e, e.len() as int), pivots@ == ji(e, e.len() as int), mst@.len() <= n,
at loop2.begin:
    let ghost k = edge_i as int;
    let ghost c0 = conSet@;
    let ghost a = vx_(e, k);
    proof { assert(vx_(e, k).len() == 2); assert(vx_(e, k).subset_of(vs)); }
at loop3.before:
    proof { lem_merge_init(e, vs, k, c0, tempset.s()); }
loop 3 invariant:
    edges@ == l, bettis@.len() == 0, conSet@ == c0, edge == e[k], rows0(tb0, inData.bettiTable@, mst@), inData.bettiTable@.len() == tb0.len() + mst@.len(),
    inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
    merging(e, vs, k, c0, cSet_i as int, conSetTemp@, foundPivot, br, tempset.s()),
    mst@ == (if foundPivot { jw(e, k).push(e[k].1) } else { jw(e, k) }), pivots@ == (if foundPivot { ji(e, k).push(k as u32) } else { ji(e, k) }), pivotIndex == k,
at loop3.begin:
    let ghost tt = inData.bettiTable@; let ghost mt = mst@;
    let ghost t0 = tempset.s();
    let ghost d0 = conSetTemp@;
    let ghost b0 = br;
    let ghost f0 = foundPivot;
    proof { lem_cut(a, c0[cSet_i as int].s()); }
at loop3.end:
    proof {
        if inData.bettiTable@ != tt { lem_rows0_zero(tb0, tt, mt, inData.bettiTable@.last(), e[k].1); assert(inData.bettiTable@ =~= tt.push(inData.bettiTable@.last())); assert(mst@ =~= mt.push(e[k].1)); }
        let p = cSet_i as int; let cs = c0[p].s();
        if cross(a, cs) {
            let u = t0.union(cs).union(a);
            assert(f0 ==> a.subset_of(t0)) by { reveal(merging); }
            assert(tempset.s() =~= u);
            lem_merge_join(e, vs, k, c0, p, d0, f0, b0, t0, u);
        } else {
            lem_merge_keep(e, vs, k, c0, p, d0, f0, b0, t0, br);
        }
    }
at if.7.before:
    let ghost d1 = conSetTemp@; let ghost t2 = inData.bettiTable@; let ghost m2 = mst@;
    proof { lem_forest_step(e, vs, k, c0, d1, foundPivot, br, tempset); }
at if.9.before:
    proof {
        if inData.bettiTable@ != t2 { lem_rows0_zero(tb0, t2, m2, inData.bettiTable@.last(), e[k].1); assert(inData.bettiTable@ =~= t2.push(inData.bettiTable@.last())); assert(mst@ =~= m2.push(e[k].1)); }
        assert(conSetTemp@ == merged(d1, foundPivot, br, tempset, e[k].0));
        assert(forest(e, vs, k + 1, conSetTemp@));
        assert(mst@ == jw(e, k + 1)); assert(pivots@ == ji(e, k + 1));
        lem_forest_count(e, vs, k + 1, conSetTemp@);
    }
at if.9.then:
    proof { lem_forest_full(e, vs, k + 1, e.len() as int, conSetTemp@); }
at loop2.after:
    proof { assert(mst@.len() <= n); }
loop 4 invariant:
    bettis@ == jtext(mst@, z_i as int),
at loop4.end:
    proof { assert(bettis@ =~= jtext(mst@, z_i as int + 1)); }
at loop5.before:
    proof { ends = mst@; assert(ends =~= mst@ + Seq::<F64>::new(0, |q: int| this.maxEpsilon)); }
loop 5 invariant:
    mst@.len() <= i <= n, rows0(tb0, inData.bettiTable@, ends), inData.bettiTable@.len() == tb0.len() + ends.len(), ends == mst@ + Seq::<F64>::new((i - mst@.len()) as nat, |q: int| this.maxEpsilon), bettis@ == jtext(mst@, mst@.len() as int) + esstext(eps, i - mst@.len()),
    inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
loop 5 decreases:
    n - i
at loop5.begin:
    let ghost t5 = inData.bettiTable@;
at loop5.end:
    proof { lem_rows0_zero(tb0, t5, ends, inData.bettiTable@.last(), this.maxEpsilon); assert(inData.bettiTable@ =~= t5.push(inData.bettiTable@.last())); ends = ends.push(this.maxEpsilon); assert(ends =~= mst@ + Seq::<F64>::new((i + 1 - mst@.len()) as nat, |q: int| this.maxEpsilon)); assert(bettis@ =~= jtext(mst@, mst@.len() as int) + esstext(eps, i + 1 - mst@.len())); }
at if.10.before:
    let ghost base = bettis@;
    let ghost mut h: Seq<Bar> = Seq::<Bar>::empty();
    proof { assert(ends =~= h0ends(l0, this.maxEpsilon)); assert(base == h0text(l0, eps)); assert(bettis@ =~= base + btext(h, h.len() as int)); assert(higher(h)); }
    //@foreign-begin
loop 6 invariant:
    d >= 1,
    edges@ == l, bettis@ == base + btext(h, h.len() as int), higher(h),
    rows0(tb0, inData.bettiTable@, ends), inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
loop 7 invariant:
    columnIndex == column_to_reduce_i, d + 1 < edges@.len(), 
    edges@ == l, bettis@ == base + btext(h, h.len() as int), higher(h),
    rows0(tb0, inData.bettiTable@, ends), inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
    forall|p: u32, x: u32| #[trigger] v@.contains_key(p) && #[trigger] v@[p].s().contains(x) ==> x < lv(l, d as int).len(),
loop 8 invariant:
    pivotIndex == row_to_check_i, pivotPointer <= pivots@.len(),
    forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < row_to_check_i,
loop 9 invariant:
    edges@ == l, bettis@ == base + btext(h, h.len() as int), higher(h), d + 1 < edges@.len(), d >= 1, columnIndex == column_to_reduce_i, column_to_reduce_i < lv(l, d + 1).len(),
    forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < lv(l, d as int).len(),
    forall|p: u32, x: u32| #[trigger] v@.contains_key(p) && #[trigger] v@[p].s().contains(x) ==> x < lv(l, d as int).len(),
    rows0(tb0, inData.bettiTable@, ends), inData.complex == work(inData_0.complex, this.dim as int), inData.originalData == inData_0.originalData, inData.stats == inData_0.stats, inData.weights == inData_0.weights,
at if.14.before:
    let ghost t6 = inData.bettiTable@; let ghost h6 = h;
at if.14.then:
    let ghost bar = Bar { d: d as int, b: lv(l, d as int)[cofaceList@.last() as int].1@, e: lv(l, d + 1)[columnIndex as int].1@ };
    proof { lem_btext_push(h, bar); h = h.push(bar); }
at if.14.after:
    proof { assert(bettis@ =~= base + btext(h, h.len() as int)); if h.len() != h6.len() { lem_rows0_high(tb0, t6, ends, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t6.push(inData.bettiTable@.last())); } }
loop 10 invariant:
    d + 1 < edges@.len(), edges@ == l, forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < lv(l, d as int).len(),
at if.10.after:
    //@foreign-end
@end
