@fn fp_h1
cxx: fastPersistence::runPipe
file: Pipes/fastPersistence.cpp
self: mut FastPersistence
attrs: #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
requires:
    old(this).dim < i32::MAX, built(inData.complex),
ensures:
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() == 0 ==> ret.bettiOutput == inData.bettiOutput,
    // after the zero-dimensional lines, exactly the intervals of nonzero length of every dimension from one up to one less than the configured one
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() > 0 ==> exists|z: Seq<F64>| ret.bettiOutput@ == #[trigger] jtext(z, z.len() as int) + btext(hbars(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@, old(this).dim as int), hbars(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@, old(this).dim as int).len() as int),
    // and the same intervals at the end of the table
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() > 0 ==> table_is(inData.bettiTable@, ret.bettiTable@, hbars(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@, old(this).dim as int)),
at decl.edges:
    let ghost l0 = edges@;
    let ghost eps = this.maxEpsilon@;
at decl.bettis:
    let ghost mut zz: Seq<F64> = Seq::<F64>::empty();
    proof { lem_estr(); assert(bettis@ =~= jtext(zz, zz.len() as int)); lem_table_init(inData.bettiTable@); }
at if.3.after:
    let ghost l = edges@;
    let ghost e = lv(l, 1);
    let ghost f = lv(l, 0);
    let ghost n = f.len() as int;
    let ghost vs = verts(f, n);
    proof {
        lem_filtered_resize(l0, l);
        assert(flevel_ok(lv(l, 0), 0)); assert(flevel_ok(lv(l, 1), 1));
        lem_verts(f, n);
        assert forall|k: int| 0 <= k < e.len() implies (#[trigger] vx_(e, k)).subset_of(vs) && vx_(e, k).len() == 2 && n >= 2 by { lem_edge_verts(l, k); }
        lem_forest_init(e, vs);
    }
    let e_len = edges.at(1).len();
loop 1 decreases:
    this.dim - i
loop 2 except:
    forest(e, vs, edge_i as int, conSet@), mst@.len() == jw(e, edge_i as int).len(), pivots@ == ji(e, edge_i as int), pivotIndex == edge_i, tempset.s().len() == 0,
loop 2 invariant:
    mst@.len() <= n, edges@ == l, bettis@.len() == 0,
    //@foreign-begin
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, none()),
    //@foreign-end
loop 2 ensures:
    mst@.len() == jw(e, e.len() as int).len(), pivots@ == ji(e, e.len() as int), mst@.len() <= n,
at loop2.begin:
    let ghost k = edge_i as int;
    let ghost c0 = conSet@;
    let ghost a = vx_(e, k);
    proof { assert(vx_(e, k).len() == 2); assert(vx_(e, k).subset_of(vs)); }
at loop3.before:
    proof { lem_merge_init(e, vs, k, c0, tempset.s()); }
loop 3 invariant:
    edges@ == l, bettis@.len() == 0, conSet@ == c0, edge == e[k],
    //@foreign-begin
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, none()),
    //@foreign-end
    merging(e, vs, k, c0, cSet_i as int, conSetTemp@, foundPivot, br, tempset.s()),
    mst@.len() == (if foundPivot { jw(e, k).len() + 1 } else { jw(e, k).len() }), pivots@ == (if foundPivot { ji(e, k).push(k as u32) } else { ji(e, k) }), pivotIndex == k,
at loop3.begin:
    let ghost t0 = tempset.s();
    let ghost tt = inData.bettiTable@;
    let ghost d0 = conSetTemp@;
    let ghost b0 = br;
    let ghost f0 = foundPivot;
    proof { lem_cut(a, c0[cSet_i as int].s()); }
at loop3.end:
    //@foreign-begin
    proof {
        if inData.bettiTable@ != tt { lem_table_zero(inData_0.bettiTable@, tt, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= tt.push(inData.bettiTable@.last())); }
    }
    //@foreign-end
    proof {
        let p = cSet_i as int; let cs = c0[p].s();
        if cross(a, cs) {
            let u = t0.union(cs).union(a);
            assert(f0 ==> a.subset_of(t0)) by { reveal(merging); }
            assert(tempset.s() =~= u);
            lem_merge_join(e, vs, k, c0, p, d0, f0, b0, t0, u);
        } else {
            lem_merge_keep(e, vs, k, c0, p, d0, f0, b0, t0, br);
        }
    }
at if.7.before:
    let ghost d1 = conSetTemp@; let ghost t2 = inData.bettiTable@;
    proof { lem_forest_step(e, vs, k, c0, d1, foundPivot, br, tempset); }
at if.9.before:
    //@foreign-begin
    proof { if inData.bettiTable@ != t2 { lem_table_zero(inData_0.bettiTable@, t2, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t2.push(inData.bettiTable@.last())); } }
    //@foreign-end
    proof {
        assert(conSetTemp@ == merged(d1, foundPivot, br, tempset, e[k].0));
        assert(forest(e, vs, k + 1, conSetTemp@));
        assert(mst@.len() == jw(e, k + 1).len()); assert(pivots@ == ji(e, k + 1));
        lem_forest_count(e, vs, k + 1, conSetTemp@);
    }
at if.9.then:
    proof { lem_forest_full(e, vs, k + 1, e.len() as int, conSetTemp@); }
at loop2.after:
    proof { assert(mst@.len() <= n); }
at loop4.before:
    //@foreign-begin
loop 4 invariant:
    bettis@ == jtext(zz, zz.len() as int),
at loop4.end:
    proof { lem_jtext_push(zz, mst@[z_i as int]); zz = zz.push(mst@[z_i as int]); assert(bettis@ =~= jtext(zz, zz.len() as int)); }
loop 5 invariant:
    mst@.len() <= i <= n, bettis@ == jtext(zz, zz.len() as int),
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, none()),
loop 5 decreases:
    n - i
at loop5.begin:
    let ghost t1 = inData.bettiTable@;
at loop5.end:
    proof { lem_jtext_push(zz, this.maxEpsilon); zz = zz.push(this.maxEpsilon); assert(bettis@ =~= jtext(zz, zz.len() as int)); lem_table_zero(inData_0.bettiTable@, t1, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t1.push(inData.bettiTable@.last())); }
at if.10.before:
    //@foreign-end
    let ghost base = bettis@;
    let ghost mut h: Seq<Bar> = none();
    let ghost dim = this.dim as int;
    proof { assert(bettis@ =~= base + btext(h, h.len() as int)); }
loop 6 invariant:
    d >= 1, d <= dim, d <= l.len() - 1, dim > 0,
    edges@ == l, h == allbars(l, d - 1), pivots@ == skips(l, d as int),
    bettis@ == base + btext(h, h.len() as int),
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, h),
loop 6 decreases:
    dim - d
at loop6.begin:
    let lenf = edges.at((d - 1) as usize).len();
    let lenr = edges.at(d as usize).len();
    let lenc = edges.at((d + 1) as usize).len();
    let ghost r = lv(l, d as int);
    let ghost c = lv(l, d + 1);
    let ghost skn = pivots@.to_set();
    proof { lem_clr(l, d as int); lem_rinit(r, c, skn); }
loop 7 invariant:
    columnIndex == column_to_reduce_i, d + 1 < edges@.len(),
    edges@ == l, pivots@ == skips(l, d as int),
    bettis@ == base + btext(h, h.len() as int),
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, h),
    h == allbars(l, d - 1) + bars(r, c, d as int, column_to_reduce_i as int),
    nextPivots@ == fl(r, c, column_to_reduce_i as int),
    rstate(r, c, skn, column_to_reduce_i as int, v@), column_to_reduce_i <= c.len(),
loop 7 decreases:
    c.len() - column_to_reduce_i
at loop7.begin:
    let ghost j = column_to_reduce_i as int;
    let ghost t = vx_(c, j);
loop 8 invariant:
    pivotIndex == row_to_check_i, pivotPointer <= pivots@.len(),
    forall|i: int| 0 <= i < pivotPointer ==> (#[trigger] pivots@[i]) < row_to_check_i,
    forall|i: int| pivotPointer <= i < pivots@.len() ==> (#[trigger] pivots@[i]) >= row_to_check_i,
    cofaceList.s() == bdk(r, t, row_to_check_i as int).difference(skn),
at loop8.begin:
    let ghost c0 = cofaceList.s();
    let ghost k = row_to_check_i as int;
    proof { lem_bdk(r, t, k); lem_bdk(r, t, k + 1); lem_row(pivots@, pivotPointer as int, k as u32); }
at loop8.end:
    proof { assert(cofaceList.s() =~= bdk(r, t, k + 1).difference(skn)); }
at loop9.before:
    let ghost mut x = bd(r, c, j);
    let ghost mut nx = x;
    proof { lem_sx(x, x); lem_spn_zero(r, c, j); if cofaceList.s().len() == 0 { lem_rempty(r, c, skn, j, v@, x); } }
loop 9 except:
    homol(r, c, j, x), cofaceList.s() == x.difference(skn), rstate(r, c, skn, j, v@),
    cofaceList.s().len() == 0 ==> !fills(r, c, j) && rstate(r, c, skn, j + 1, v@),
    nextPivots@ == fl(r, c, j), h == allbars(l, d - 1) + bars(r, c, d as int, j),
loop 9 invariant:
    edges@ == l, bettis@ == base + btext(h, h.len() as int), d + 1 < edges@.len(), d >= 1, columnIndex == column_to_reduce_i, column_to_reduce_i < c.len(),
    inData.bettiOutput == inData_0.bettiOutput, table_is(inData_0.bettiTable@, inData.bettiTable@, h),
loop 9 ensures:
    rstate(r, c, skn, j + 1, v@), nextPivots@ == fl(r, c, j + 1), h == allbars(l, d - 1) + bars(r, c, d as int, j + 1),
loop 9 decreases:
    (if cofaceList@.len() > 0 { cofaceList@.last() as int + 1 } else { 0int })
at loop9.begin:
    let ghost p = cofaceList@.last();
    let ghost v0 = v@;
    let ghost k0 = cofaceList.s();
    proof { if cofaceList.s().len() > 0 { lem_last_top(cofaceList); lem_spn_bound(r, c, j + 1, x); lem_rtop(r, c, skn, j, x); } }
at if.13.then:
    proof { lem_rnew(r, c, skn, j, v0, x, cofaceList, p); }
at if.14.before:
    let ghost h0 = h;
    let ghost t1 = inData.bettiTable@;
    let ghost bar = Bar { d: d as int, b: r[p as int].1@, e: c[j].1@ };
    proof { assert(v@ =~= v0.insert(p, cofaceList)); assert(nextPivots@ =~= fl(r, c, j + 1)); }
at if.14.then:
    proof { lem_btext_push(h, bar); h = h.push(bar); }
at if.14.after:
    proof {
        assert(bettis@ =~= base + btext(h, h.len() as int));
        if h != h0 { lem_table_push(inData_0.bettiTable@, t1, h0, inData.bettiTable@.last(), bar); assert(inData.bettiTable@ =~= t1.push(inData.bettiTable@.last())); }
        assert(h =~= allbars(l, d - 1) + bars(r, c, d as int, j + 1));
    }
loop 10 invariant:
    d + 1 < edges@.len(), edges@ == l, r == lv(l, d as int), forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < r.len(),
at if.13.else:
    proof { nx = lem_rstep(r, c, skn, j, v0, x, k0, p); }
at loop9.end:
    proof {
        x = nx;
        assert(v@ =~= v0);
        if cofaceList.s().len() == 0 { lem_rempty(r, c, skn, j, v@, x); } else { lem_last_top(cofaceList); }
    }
at if.10.after:
    proof { assert(h == hbars(l, dim)); assert(hbars(l, dim) == hbars(l0, dim)); assert(bettis@ == jtext(zz, zz.len() as int) + btext(h, h.len() as int)); }
@end

@fn fp_pts
cxx: fastPersistence::runPipe
file: Pipes/fastPersistence.cpp
self: mut FastPersistence
attrs: #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
requires:
    old(this).dim < i32::MAX, built(inData.complex),
ensures:
    // the rows added to the table name only points of the filtration
    listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@.len() > 0 ==> pts_in(inData.bettiTable@.len() as int, ret.bettiTable@, points(listing(work(inData.complex, old(this).dim as int), old(this).maxEpsilon@)@)),
at decl.edges:
    let ghost l0 = edges@;
at if.3.after:
    let ghost l = edges@;
    let ghost e = lv(l, 1);
    let ghost f = lv(l, 0);
    let ghost n = f.len() as int;
    let ghost vs = verts(f, n);
    let ghost n0 = inData.bettiTable@.len() as int;
    proof {
        lem_filtered_resize(l0, l);
        assert(flevel_ok(lv(l, 0), 0)); assert(flevel_ok(lv(l, 1), 1));
        lem_pts_init(inData.bettiTable@, vs); assert(vs == points(l0)); assert(vs == points(l));
    }
    let e_len = edges.at(1).len();
loop 1 decreases:
    this.dim - i
loop 2 except:
    pivotIndex == edge_i,
loop 2 invariant:
    edges@ == l, filtered(l), pts_in(n0, inData.bettiTable@, vs), vs == points(l), l.len() >= 2, e == lv(l, 1), edge_i <= e.len(),
loop 2 ensures:
    edges@ == l,
at loop2.begin:
    proof { lem_points(l, 1, edge_i as int); }
loop 3 invariant:
    edges@ == l, pts_in(n0, inData.bettiTable@, vs), edge.0.s().subset_of(vs), pivotIndex == edge_i,
at loop3.begin:
    let ghost tt = inData.bettiTable@;
at loop3.end:
    proof { if inData.bettiTable@ != tt { assert(wset.s().subset_of(edge.0.s())); lem_pts_push(n0, tt, vs, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= tt.push(inData.bettiTable@.last())); } }
at if.7.before:
    let ghost t2 = inData.bettiTable@;
at if.9.before:
    proof { if inData.bettiTable@ != t2 { lem_pts_push(n0, t2, vs, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t2.push(inData.bettiTable@.last())); } }
loop 5 invariant:
    edges@ == l, pts_in(n0, inData.bettiTable@, vs),
loop 5 decreases:
    if n > i { n - i } else { 0int }
at loop5.begin:
    let ghost t5 = inData.bettiTable@;
at loop5.end:
    proof { lem_pts_push(n0, t5, vs, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t5.push(inData.bettiTable@.last())); }
loop 6 invariant:
    d >= 1, edges@ == l, filtered(l), vs == points(l), pts_in(n0, inData.bettiTable@, vs),
loop 7 invariant:
    columnIndex == column_to_reduce_i, d >= 1, d + 1 < edges@.len(), filtered(l), vs == points(l),
    edges@ == l, pts_in(n0, inData.bettiTable@, vs),
    forall|p: u32, x: u32| #[trigger] v@.contains_key(p) && #[trigger] v@[p].s().contains(x) ==> x < lv(l, d as int).len(),
loop 8 invariant:
    pivotIndex == row_to_check_i, pivotPointer <= pivots@.len(),
    forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < row_to_check_i,
loop 9 invariant:
    edges@ == l, pts_in(n0, inData.bettiTable@, vs), d + 1 < edges@.len(), d >= 1, columnIndex == column_to_reduce_i, column_to_reduce_i < lv(l, d + 1).len(), filtered(l), vs == points(l),
    forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < lv(l, d as int).len(),
    forall|p: u32, x: u32| #[trigger] v@.contains_key(p) && #[trigger] v@[p].s().contains(x) ==> x < lv(l, d as int).len(),
at if.14.before:
    let ghost t6 = inData.bettiTable@;
loop 10 invariant:
    d >= 1, d + 1 < edges@.len(), edges@ == l, filtered(l), vs == points(l), forall|x: u32| #[trigger] cofaceList.s().contains(x) ==> x < lv(l, d as int).len(), boundaryPoints.s().subset_of(vs),
at loop10.begin:
    proof { let g = cofaceList@[face_i as int]; assert(cofaceList.s().contains(g)); lem_points(l, d as int, g as int); }
at if.14.after:
    proof { if inData.bettiTable@ != t6 { lem_pts_push(n0, t6, vs, inData.bettiTable@.last()); assert(inData.bettiTable@ =~= t6.push(inData.bettiTable@.last())); } }
@end
