@fn db_cluster
cxx: dbscan::cluster
file: Preprocessing/dbscan.cpp
params: data minPoints epsilon size
requires:
    0 <= size <= data@.len(), minPoints >= 0, epsilon@ >= 0real,
    data@.len() > 0 ==> db_data(data@, data@.len() as int, data@[0]@.len() as int),
ensures:
    ret@.len() == (if size == 0 { data@.len() as int } else { size as int }),
    db_result(ret@, data@, epsilon@, minPoints as int),
loop 1 invariant:
    data@.len() > 0 ==> db_data(data@, data@.len() as int, data@[0]@.len() as int), epsilon == epsilon_0, minPoints == minPoints_0, minPoints >= 0, epsilon@ >= 0real,
    size == (if size_0 == 0 { data@.len() as int } else { size_0 as int }), 0 <= size <= data@.len() <= MAXLEN, labels@.len() == size, 0 <= i <= size, 0 <= clusterLabel <= i,
    data@.len() > 0 ==> tree_of(tree, data@, size as int, data@[0]@.len() as int),
    lab_a(labels@, data@, epsilon@, minPoints as int, 0, 0), lab_b(labels@, data@, epsilon@, minPoints as int, 0), lab_c(labels@, data@, epsilon@, minPoints as int), lab_r(labels@, clusterLabel as int),
    forall|c: int| 1 <= c <= clusterLabel ==> #[trigger] used(labels@, c),
    forall|x: int| 0 <= x < i ==> (#[trigger] labels@[x]) != 0,
loop 1 decreases: size - i
at entry:
    let ln = data.len();
    let ghost dim = if data@.len() > 0 { data@[0]@.len() as int } else { 1 };
at loop1.begin:
    let ghost l0 = labels@;
    proof { assert(data@[i as int]@.len() == dim); assert(data@.len() > 0); }
    let pl = (*data.at(i as usize)).len();
at if.3.before:
    proof { lem_nlen(neighbors@, data@, size as int, epsilon@, i as int); lem_core(data@, size as int, epsilon@, minPoints as int, i as int); lem_near_self(data@, epsilon@, i as int); }
at if.3.then:
    proof { assert(!core(data@, size as int, epsilon@, minPoints as int, i as int)); }
at if.3.else:
    proof { assert(core(data@, size as int, epsilon@, minPoints as int, i as int)); assert(src_of(neighbors@, l0, data@, epsilon@, minPoints as int, i as int)); }
at if.3.after:
    proof {
        if l0.len() > 0 && labels@[i as int] == -1 {
            let l1 = labels@;
            assert(l1 =~= l0.update(i as int, -1i32));
            assert forall|x: int| 0 <= x < l1.len() && (#[trigger] l1[x]) > 0 implies reach(l1, data@, epsilon@, minPoints as int, 0, 0, x) by {
                reveal(reach);
                assert(l0[x] > 0);
                let q = choose|q: int| 0 <= q < l0.len() && #[trigger] near(data@, epsilon@, q, x) && core(data@, l0.len() as int, epsilon@, minPoints as int, q) && l0[q] == l0[x];
                assert(near(data@, epsilon@, q, x) && l1[q] == l1[x]);
            }
            assert(lab_a(l1, data@, epsilon@, minPoints as int, 0, 0));
            assert(lab_b(l1, data@, epsilon@, minPoints as int, 0));
            assert forall|c: int| 1 <= c <= clusterLabel implies #[trigger] used(l1, c) by { assert(used(l0, c)); let x = choose|x: int| 0 <= x < l0.len() && #[trigger] l0[x] == c; assert(l1[x] == c); }
        } else {
            assert forall|c: int| 1 <= c <= clusterLabel implies #[trigger] used(labels@, c) by {
                if c == clusterLabel { assert(labels@[i as int] == c); } else { assert(used(l0, c)); let x = choose|x: int| 0 <= x < l0.len() && #[trigger] l0[x] == c; assert(labels@[x] == c); }
            }
        }
    }
at return:
    proof { lem_db_final(labels@, data@, epsilon@, minPoints as int, clusterLabel as int, dim); }
@end

@fn db_expand
cxx: dbscan::expandCluster
file: Preprocessing/dbscan.cpp
params: data labels neighbors clusterLabel tree minPoints epsilon
constref: tree
requires:
    clusterLabel >= 1, minPoints >= 0, epsilon@ >= 0real, data@.len() > 0, db_data(data@, old(labels)@.len() as int, data@[0]@.len() as int), data@[0]@.len() <= MAXLEN,
    tree_of(*tree, data@, old(labels)@.len() as int, data@[0]@.len() as int),
    lab_a(old(labels)@, data@, epsilon@, minPoints as int, 0, 0), lab_b(old(labels)@, data@, epsilon@, minPoints as int, 0), lab_c(old(labels)@, data@, epsilon@, minPoints as int), lab_r(old(labels)@, clusterLabel - 1),
    exists|s: int| #[trigger] src_of(old(neighbors)@, old(labels)@, data@, epsilon@, minPoints as int, s),
ensures:
    final(labels)@.len() == old(labels)@.len(),
    lab_a(final(labels)@, data@, epsilon@, minPoints as int, 0, 0), lab_b(final(labels)@, data@, epsilon@, minPoints as int, 0), lab_c(final(labels)@, data@, epsilon@, minPoints as int), lab_r(final(labels)@, clusterLabel as int),
    forall|x: int| 0 <= x < old(labels)@.len() ==> (#[trigger] final(labels)@[x]) == old(labels)@[x] || (final(labels)@[x] == clusterLabel && old(labels)@[x] <= 0),
    forall|s: int| #[trigger] src_of(old(neighbors)@, old(labels)@, data@, epsilon@, minPoints as int, s) ==> final(labels)@[s] == clusterLabel,
at entry:
    let ghost dim = data@[0]@.len() as int;
    let ghost l0 = labels@;
    let ghost nb0 = neighbors@;
    let ghost s = choose|s: int| #[trigger] src_of(nb0, l0, data@, epsilon@, minPoints as int, s);
    let ghost n = l0.len() as int;
    proof { lem_db_init(nb0, l0, data@, epsilon@, minPoints as int, clusterLabel as int, s, dim); }
    let ln0 = neighbors.len();
loop 1 invariant:
    clusterLabel >= 1, minPoints >= 0, epsilon@ >= 0real, data@.len() > 0, db_data(data@, n, dim), n == l0.len(), dim == data@[0]@.len(), dim <= MAXLEN,
    labels@.len() == n, tree_of(*tree, data@, n, dim), 0 <= i <= neighbors@.len() <= MAXLEN, src_of(nb0, l0, data@, epsilon@, minPoints as int, s),
    db_inv(neighbors@, labels@, data@, epsilon@, minPoints as int, clusterLabel as int, s, i as int),
    forall|x: int| 0 <= x < n ==> (#[trigger] labels@[x]) == l0[x] || (labels@[x] == clusterLabel && l0[x] <= 0),
    nb0.len() <= neighbors@.len(), forall|j: int| 0 <= j < nb0.len() ==> (#[trigger] neighbors@[j]) == nb0[j],
loop 1 decreases: zeros(labels@), neighbors@.len() - i
at loop1.begin:
    let ghost nb1 = neighbors@;
    let ghost l1 = labels@;
    let ghost mut pn = Seq::<usize>::empty();
    proof { assert(neighbors@[i as int] < n); assert(data@[neighbors@[i as int] as int]@.len() == dim); }
at if.3.before:
    proof { pn = ptNeighbors@; lem_nlen(ptNeighbors@, data@, n, epsilon@, pt as int); lem_core(data@, n, epsilon@, minPoints as int, pt as int); }
at if.1.after:
    proof {
        assert(pt == nb1[i as int]);
        if l1[pt as int] <= 0 {
            if l1[pt as int] == -1 { assert(!core(data@, n, epsilon@, minPoints as int, pt as int)); }
            if core(data@, n, epsilon@, minPoints as int, pt as int) { assert(neighbors@ =~= nb1 + pn); }
            lem_db_label(nb1, l1, data@, epsilon@, minPoints as int, clusterLabel as int, s, i as int, pn, neighbors@, dim);
            lem_zeros_upd(l1, pt as int, clusterLabel);
        }
    }
    let ln1 = neighbors.len();
at loop1.after:
    proof {
        let l = labels@;
        assert forall|t: int| #[trigger] src_of(nb0, l0, data@, epsilon@, minPoints as int, t) implies l[t] == clusterLabel by {
            lem_near_self(data@, epsilon@, t); lem_list(nb0, data@, n, epsilon@, t); assert(nb0.contains(t as usize));
            let k = choose|k: int| 0 <= k < nb0.len() && nb0[k] == t as usize; assert(neighbors@[k] == t as usize); assert(l[neighbors@[k] as int] > 0);
        }
        assert(l[s] == clusterLabel);
        lem_db_end(neighbors@, l, data@, epsilon@, minPoints as int, clusterLabel as int, s, dim);
    }
@end
