@fn map_partition
cxx: utils::mapPartitionIndexing
file: Utils/utils.cpp
params: partitionedLabels bettiTable
requires:
    names_points(old(bettiTable)@, partitionedLabels@.len() as int),
ensures:
    mapped(partitionedLabels@, old(bettiTable)@, final(bettiTable)@),
at entry:
    let ghost t0 = bettiTable@;
    let ln = bettiTable.len();
loop 1 invariant:
    bettiTable@.len() == t0.len(), names_points(t0, partitionedLabels@.len() as int),
    forall|i: int| bet_i <= i < t0.len() ==> #[trigger] bettiTable@[i] == t0[i],
    forall|i: int| 0 <= i < bet_i ==> mapped_row(partitionedLabels@, t0[i], #[trigger] bettiTable@[i]),
loop 2 invariant:
    names_points(t0, partitionedLabels@.len() as int), 
    forall|x: u32| #[trigger] convBound.s().contains(x) <==> exists|k: int| 0 <= k < ind_i && partitionedLabels@[(#[trigger] t0[bet_i as int].boundaryPoints@[k]) as int] == x,
at loop1.begin:
    let ghost a = t0[bet_i as int].boundaryPoints;
at loop1.end:
    proof {
        let b = bettiTable@[bet_i as int].boundaryPoints;
        assert forall|x: u32| #[trigger] b.s().contains(x) <==> image(partitionedLabels@, a.s(), x) by {
            if b.s().contains(x) { let k = choose|k: int| 0 <= k < a@.len() && partitionedLabels@[(#[trigger] a@[k]) as int] == x; assert(a.s().contains(a@[k])); assert(t0[bet_i as int].boundaryPoints.s().contains(a@[k])); }
            if image(partitionedLabels@, a.s(), x) { let i = choose|i: u32| #[trigger] a.s().contains(i) && i < partitionedLabels@.len() && partitionedLabels@[i as int] == x; let k = choose|k: int| 0 <= k < a@.len() && a@[k] == i; assert(partitionedLabels@[a@[k] as int] == x); }
        }
        assert(mapped_row(partitionedLabels@, t0[bet_i as int], bettiTable@[bet_i as int]));
    }
@end

@fn process_reduced
cxx: processReducedWrapper
file: LHFmain/main.cpp
self: none
mutptr: wD
globals: disk
requires:
    !old(wD).complex.null,
    forall|w: PipePacket| #[trigger] pre_result(args@, *old(wD), w) ==> clustered(w),
    runs_name_points(with_clusters(with_pre(args@))),
ensures:
    exists|w: PipePacket| #[trigger] pre_result(args@, *old(wD), w) && reduced_result(with_clusters(with_pre(args@)), w, *final(wD))
        && (w.originalData@.len() > 0 ==> results_left(with_clusters(with_pre(args@)), *final(wD), final(disk)@)),
at entry:
    let ghost m0 = args@; let ghost w0 = *wD;
    proof { ax_lits(); lem_estr(); }
at decl.pre:
    assert(args@ =~= with_pre(m0));
    assert(forall|c: CStr| pre_class(pre) == Some(c) ==> pre_ok(c, with_pre(m0)) == pre_ok(c, m0));
at if.1.after:
    let ghost w1 = *wD;
    assert(pre_result(m0, w0, w1));
    let ghost m = with_clusters(with_pre(m0));
at decl.partitionedData:
    let ghost idx = partitionedData.0@;
    let ghost pts = partitionedData.1@;
    let ghost mut tr: Seq<PipePacket> = seq![*wD];
    let ghost mut adds: Seq<Seq<Row>> = Seq::<Seq<Row>>::empty();
    let ghost n = w1.originalLabels@.len() as int;
    let pn = partitionedData.1.len(); let ln = wD.originalLabels.len();
    proof {
        assert(args@ =~= m); assert(max_radius(w1, maxRadius@)); assert(partitions(w1, 2real * maxRadius@, idx, pts));
        assert forall|c: int| 0 <= c < pts.len() implies (#[trigger] pts[c])@.len() == idx[c]@.len() by { lem_sel(w1.fullData@, n, by_radius(w1.fullData@, w1.originalData@, 2real * maxRadius@, c)); }
    }
loop 1 invariant:
    z <= pts.len() <= MAXLEN, args@ == m, idx == partitionedData.0@, pts == partitionedData.1@, idx.len() == pts.len(), runs_name_points(m),
    forall|c: int| 0 <= c < pts.len() ==> (#[trigger] pts[c])@.len() == idx[c]@.len(),
    adds.len() == z, parts_run(m, idx, pts, tr, adds), tr[0] == w1, tr.last() == *wD, wD.bettiTable@.len() == 0, mergedBettiTable@ == flat(adds), !wD.complex.null,
loop 1 decreases:
    pts.len() - z
at loop1.begin:
    let ghost a = *wD; let ghost mg = mergedBettiTable@;
    let ghost mut add: Seq<Row> = Seq::<Row>::empty(); let ghost mut r = *wD;
at call.clear.1.before:
    proof { r = *wD; assert(pipeline_result(m, PipePacket { originalData: pts[z as int], ..a }, r)); }
at loop2.before:
    let ghost b0 = *wD;
    proof { add = wD.bettiTable@; assert(mg + add.take(0) =~= mg); }
loop 2 invariant:
    *wD == b0, add == b0.bettiTable@, mergedBettiTable@ == mg + add.take(betEntry_i as int),
at loop2.end:
    proof { assert(add.take(betEntry_i + 1) =~= add.take(betEntry_i as int).push(add[betEntry_i as int])); assert(mergedBettiTable@ =~= mg + add.take(betEntry_i + 1)); }
at loop2.after:
    proof { assert(add.take(add.len() as int) =~= add); }
at loop1.end:
    proof {
        if pts[z as int]@.len() == 0 { assert(mg + add =~= mg); }
        assert(mergedBettiTable@ == mg + add);
        assert(part_step(m, idx[z as int]@, pts[z as int], a, *wD, add));
        lem_flat_push(adds, add);
        let t0 = tr; let a0 = adds;
        tr = tr.push(*wD); adds = adds.push(add);
        assert forall|k: int| 0 <= k < adds.len() implies part_step(m, idx[k]@, pts[k], tr[k], tr[k + 1], #[trigger] adds[k]) by { if k < a0.len() { assert(adds[k] == a0[k]); assert(tr[k] == t0[k]); assert(tr[k + 1] == t0[k + 1]); } }
    }
at if.4.before:
    let ghost u = *wD; let ghost dk = disk@;
at call.clear.3.before:
    let ghost pw = *wD;
    proof { assert(results_written(m, pw, dk, disk@)); }
at call.clear.3:
    proof { assert(wD.stats == pw.stats && wD.bettiOutput == pw.bettiOutput); assert(results_written(m, *wD, dk, disk@)); assert(results_left(m, *wD, disk@)); }
at loop3.before:
    assert(w1.originalData@.len() > 0 ==> results_left(m, *wD, disk@));
    let ghost b = *wD;
    proof { assert(centroid_step(m, w1.originalData, u, b)); assert(reduced_result(m, w1, b)); }
loop 3 invariant:
    *wD == b,
@end
