@fn al_insert
cxx: simplexArrayList::insert
file: Complex/simplexArrayList.cpp
sig: std::vector<double> &
self: mut SimplexArrayList
params: vector
constref: vector
requires:
    mat_ok(old(this).distMatrix@, lev(old(this).weightedGraph@, 0).len() as int + 1),
    rips(old(this).distMatrix@, old(this).maxEpsilon@, lev(old(this).weightedGraph@, 0).len() as int, old(this).weightedGraph@, if old(this).maxDimension > 0 { 2 } else { 1 }),
ensures:
    *final(this) == (SimplexArrayList { weightedGraph: final(this).weightedGraph, ..*old(this) }),
    vector@.len() == 0 ==> final(this).weightedGraph == old(this).weightedGraph,
    vector@.len() > 0 ==> lev(final(this).weightedGraph@, 0).len() == lev(old(this).weightedGraph@, 0).len() + 1
        && rips(final(this).distMatrix@, final(this).maxEpsilon@, lev(final(this).weightedGraph@, 0).len() as int, final(this).weightedGraph@, if final(this).maxDimension > 0 { 2 } else { 1 }),
loop 1 invariant:
    j <= n, i == n, n == lev(W0, 0).len(), n <= MAXLEN - 1, 0 < W0.len() <= 2, this.weightedGraph@.len() <= 2, this.weightedGraph@.len() > 0, this.maxDimension > 0,
    this.weightedGraph@[0] == W0[0], mat_ok(D, n + 1), D == this.distMatrix@, eps == this.maxEpsilon@,
    *this == (SimplexArrayList { weightedGraph: this.weightedGraph, ..*old(this) }),
    this.weightedGraph@.len() == 2 ==> this.weightedGraph@[1]@.len() > 0,
    edges_upto(D, eps, n, lev(this.weightedGraph@, 1), j as int),
loop 1 decreases: n - j
at entry:
    let ghost W0 = this.weightedGraph@; let ghost D = this.distMatrix@; let ghost eps = this.maxEpsilon@; let ghost n: int = lev(W0, 0).len() as int;
    proof { assert(level_ok(D, eps, n, lev(W0, 0), 1)); if this.maxDimension > 0 { assert(level_ok(D, eps, n, lev(W0, 1), 2)); } }
at loop1.before:
    proof { lem_edges_init(D, eps, n, lev(W0, 1)); }
at loop1.begin:
    let ghost L0 = lev(this.weightedGraph@, 1);
    assert(D[j as int]@.len() >= n + 1);
at decl.edge:
    let ghost e: Entry = (edge, dist);
    proof { assert(edge@ =~= seq![j as u32, n as u32]); lem_edges_step(D, eps, n, L0, j as int, e); }
at loop1.end:
    proof {
        let w = this.weightedGraph@;
        if dist@ <= eps { assert(lev(w, 1) =~= L0.push(w[1]@.last())); }
        else { let e: Entry = (cvec_of(seq![j as u32, n as u32]), dist); lem_edges_step(D, eps, n, L0, j as int, e); }
    }
at loop1.after:
    proof { lem_edges_done(D, eps, n, lev(this.weightedGraph@, 1)); }
at exit:
    proof {
        let w = this.weightedGraph@;
        if vector@.len() > 0 && W0.len() == 0 {
            let e: Entry = w[0]@[0];
            assert(w[0]@ =~= Seq::<Entry>::empty().push(e)); assert(e.0@ =~= seq![0u32]);
            lem_vertex_step(D, eps, 0, Seq::<Entry>::empty(), e);
            assert(lev(w, 0) == w[0]@); assert(lev(w, 1) =~= Seq::<Entry>::empty());
            lem_level_empty(D, eps, 1, 2);
        }
        if vector@.len() > 0 && W0.len() > 0 {
            let e: Entry = w[0]@.last();
            assert(w[0]@ =~= W0[0]@.push(e)); assert(e.0@ =~= seq![n as u32]);
            lem_vertex_step(D, eps, n, W0[0]@, e);
            assert(lev(w, 0) == w[0]@);
            if this.maxDimension > 0 { if w.len() == 2 { assert(lev(w, 1) == w[1]@); } }
        }
    }
@end

@fn al_expand
attrs:
    #[verifier::rlimit(60)]
cxx: simplexArrayList::expandDimensions
file: Complex/simplexArrayList.cpp
sig: int
self: mut SimplexArrayList
params: dim
requires:
    0 <= dim, mat_ok(old(this).distMatrix@, lev(old(this).weightedGraph@, 0).len() as int),
    rips(old(this).distMatrix@, old(this).maxEpsilon@, lev(old(this).weightedGraph@, 0).len() as int, old(this).weightedGraph@, known(old(this).weightedGraph@)),
ensures:
    *final(this) == (SimplexArrayList { weightedGraph: final(this).weightedGraph, ..*old(this) }),
    lev(final(this).weightedGraph@, 0) == lev(old(this).weightedGraph@, 0),
    rips(old(this).distMatrix@, old(this).maxEpsilon@, lev(old(this).weightedGraph@, 0).len() as int, final(this).weightedGraph@, imax(known(old(this).weightedGraph@), dim + 1)),
    rips(old(this).distMatrix@, old(this).maxEpsilon@, lev(old(this).weightedGraph@, 0).len() as int, old(this).weightedGraph@, dim + 1) ==> final(this).weightedGraph@ =~= old(this).weightedGraph@,
loop 1 invariant:
    0 <= dim, 2 <= d, dim >= 2 ==> d <= dim + 1, dim < 2 ==> d == 2, *this == (SimplexArrayList { weightedGraph: this.weightedGraph, ..*old(this) }),
    rips(D, eps, n, this.weightedGraph@, imax(m0, d as int)), lev(this.weightedGraph@, 0) == lev(W0, 0),
    d <= m0 ==> this.weightedGraph@ =~= W0,
loop 1 ensures:
    *this == (SimplexArrayList { weightedGraph: this.weightedGraph, ..*old(this) }),
    rips(D, eps, n, this.weightedGraph@, imax(m0, dim + 1)), lev(this.weightedGraph@, 0) == lev(W0, 0),
    dim + 1 <= m0 ==> this.weightedGraph@ =~= W0,
loop 1 decreases: dim + 2 - d
at entry:
    let ghost W0 = this.weightedGraph@; let ghost D = this.distMatrix@; let ghost eps = this.maxEpsilon@; let ghost n: int = lev(W0, 0).len() as int;
    let ghost m0: int = if dim >= 1 && rips(D, eps, n, W0, dim + 1) { dim + 1 } else { known(W0) };
at if.1.then:
    proof { lem_rips_extend(D, eps, n, this.weightedGraph@, imax(m0, d as int), d - 1, imax(m0, dim + 1)); }
at loop1.begin:
    let ghost Wd = this.weightedGraph@; let ghost L = lev(Wd, d - 1);
at loop2.before:
    proof {
        assert(L == Wd[d - 1]@); assert(level_ok(D, eps, n, lev(Wd, d - 1), d as int));
        lem_upto_none(D, eps, n, L, lev(Wd, d as int), d as int);
        if d < m0 { assert(level_ok(D, eps, n, lev(Wd, d as int), d + 1)); } else { assert(lev(Wd, d as int) =~= Seq::<Entry>::empty()); }
    }
loop 2 invariant:
    d < m0 ==> this.weightedGraph@ == Wd, expanding(D, eps, n, this.weightedGraph@, Wd, d as int), j <= L.len(), *this == (SimplexArrayList { weightedGraph: this.weightedGraph, ..*old(this) }),
    upto(D, eps, n, L, lev(this.weightedGraph@, d as int), d as int, j as int, 0),
loop 2 decreases: L.len() - j
at loop2.end:
    proof { lem_upto_row(D, eps, n, L, lev(this.weightedGraph@, d as int), d as int, j as int); }
at loop2.after:
    proof {
        let w = this.weightedGraph@;
        lem_upto_done(D, eps, n, L, lev(w, d as int), d as int);
        if d >= m0 {
            assert forall|k: int| 0 <= k < d + 1 implies level_ok(D, eps, n, #[trigger] lev(w, k), k + 1) by { if k < d { assert(lev(w, k) == lev(Wd, k)); } }
            assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k])@.len() > 0 by { if k < d { assert(w[k] == Wd[k]); } else { assert(w[k]@ == lev(w, k)); } }
        }
        assert(lev(w, 0) == lev(Wd, 0));
    }
at loop3.before:
    proof { lem_upto_start(D, eps, n, L, lev(this.weightedGraph@, d as int), d as int, j as int); }
loop 3 invariant:
    d < m0 ==> this.weightedGraph@ == Wd, expanding(D, eps, n, this.weightedGraph@, Wd, d as int), j < t <= L.len(), *this == (SimplexArrayList { weightedGraph: this.weightedGraph, ..*old(this) }),
    upto(D, eps, n, L, lev(this.weightedGraph@, d as int), d as int, j as int, t as int),
loop 3 decreases: L.len() - t
at loop3.begin:
    let ghost A: Entry = L[j as int]; let ghost B: Entry = L[t as int]; let ghost M1 = lev(this.weightedGraph@, d as int);
    proof { assert(entry_ok(D, eps, n, L[j as int], d as int)); assert(entry_ok(D, eps, n, L[t as int], d as int)); lem_lt_dupfree(A.0@); lem_lt_dupfree(B.0@); }
at if.2.before:
    proof { if simp@.len() != 2 { lem_not_canon(D, eps, n, L, d as int, j as int, t as int, simp@); lem_upto_skip(D, eps, n, L, M1, d as int, j as int, t as int); } }
at if.3.before:
    proof { lem_cards(A.0@, B.0@, simp@, m@); lem_lt_dupfree(simp@); lem_lt_dupfree(m@); lem_pair_contains(simp@); }
loop 4 invariant:
    totalVector@ == simp@ + m@.take($i as int),
at loop4.before:
    proof { lem_sorted_perm(searchVector@, simp@); assert(searchVector == simp) by { assert(cvec_of(searchVector@) == searchVector && cvec_of(simp@) == simp); } assert(simp@ + m@.take(0) =~= simp@); }
at loop4.end:
    proof { assert(totalVector@ =~= simp@ + m@.take($i + 1)); }
at loop4.after:
    proof { assert(m@.take(m@.len() as int) =~= m@); lem_concat_dupfree(simp@, m@); assert(totalVector@ == simp@ + m@); }
at if.4.after:
    proof {
        lem_sorted_dupfree_u32(totalVector@);
        assert(sunion(A.0@, B.0@, totalVector@)) by {
            assert forall|x: u32| #[trigger] totalVector@.contains(x) <==> A.0@.contains(x) || B.0@.contains(x) by { assert((simp@ + m@).contains(x) <==> simp@.contains(x) || m@.contains(x)); assert(simp@.contains(x) <==> A.0@.contains(x) != B.0@.contains(x)); assert(m@.contains(x) <==> A.0@.contains(x) && B.0@.contains(x)); }
        }
        if create {
            let k = choose|k: int| #[trigger] first_key(this.weightedGraph@[searchVector@.len() - 1]@, searchVector, k) && wt == this.weightedGraph@[searchVector@.len() - 1]@[k].1;
            assert(entry_ok(D, eps, n, L[k], d as int)); let f = L[k];
            lem_att_search(D, A.0@, B.0@, f, maxWeight@);
            lem_new_simplex(D, eps, n, A, B, d as int, simp@, m@, f, (totalVector, maxWeight));
        } else {
            lem_subseq_empty(m@); assert(searchVector@ =~= simp@ + Seq::<u32>::empty());
            lem_all_stored(D, eps, n, L, this.weightedGraph@, d as int, j as int, t as int, simp@, m@, Seq::<u32>::empty(), searchVector);
        }
    }
loop 5 invariant:
    create ==> search_ok(D, A, B, L, simp@, m@, totalVector@, maxWeight@) && (forall|k: int| 0 <= k < $i ==> within_set((#[trigger] $r@[k])@, totalVector@)) && ($i > 0 ==> bridged(L, simp@, fi, maxWeight@)),
    !create ==> 0 <= bz < $r@.len() && !stored(this.weightedGraph@, cvec_of(simp@ + $r@[bz]@)),
loop 5 except:
    create,
loop 5 ensures:
    create ==> search_ok(D, A, B, L, simp@, m@, totalVector@, maxWeight@) && (forall|k: int| 0 <= k < $r@.len() ==> within_set((#[trigger] $r@[k])@, totalVector@)) && ($r@.len() > 0 ==> bridged(L, simp@, fi, maxWeight@)),
    !create ==> 0 <= bz < $r@.len() && !stored(this.weightedGraph@, cvec_of(simp@ + $r@[bz]@)),
at loop5.before:
    let ghost mut fi: int = 0; let ghost mut bz: int = 0;
    proof { assert(wt_at(D, A.0@, A.1@)); assert(wt_at(D, B.0@, B.1@)); }
at loop5.begin:
    let ghost tv = totalVector@;
    proof { assert($r@.contains($r@[$i as int])); lem_subseq_sorted($r@[$i as int]@, m@); lem_pair_contains(simp@); }
loop 6 invariant:
    searchVector@ == simp@ + z@.take($i as int),
at loop6.before:
    proof { assert(simp@ + z@.take(0) =~= simp@); }
at loop6.end:
    proof { assert(searchVector@ =~= simp@ + z@.take($i + 1)); }
at loop6.after:
    proof { assert(z@.take(z@.len() as int) =~= z@); assert(searchVector@ == simp@ + z@); assert(cvec_of(searchVector@) == searchVector); }
at if.7.before:
    proof {
        if stored(this.weightedGraph@, searchVector) {
            let k = choose|k: int| at_key(L, searchVector, k);
            assert(entry_ok(D, eps, n, L[k], d as int)); lem_lt_dupfree(searchVector@); lem_lt_dupfree(tv);
        }
    }
at if.7.then:
    proof { bz = z_i as int; }
at if.7.after:
    proof {
        let k = choose|k: int| #[trigger] first_key(this.weightedGraph@[searchVector@.len() - 1]@, searchVector, k) && wt == this.weightedGraph@[searchVector@.len() - 1]@[k].1;
        assert(entry_ok(D, eps, n, L[k], d as int)); fi = k;
        lem_search_step(D, A, B, L, simp@, m@, z@, tv, totalVector@, k, maxWeight@);
    }
at loop5.after:
    proof {
        if create {
            lem_search_done(D, A, B, L, simp@, m@, $r@, totalVector@, maxWeight@);
            assert(entry_ok(D, eps, n, L[fi], d as int));
            lem_new_simplex(D, eps, n, A, B, d as int, simp@, m@, L[fi], (totalVector, maxWeight));
        } else {
            assert($r@.contains($r@[bz]));
            lem_all_stored(D, eps, n, L, this.weightedGraph@, d as int, j as int, t as int, simp@, m@, $r@[bz]@, cvec_of(simp@ + $r@[bz]@));
        }
    }
at if.9.before:
    let ghost T: Entry = (totalVector, maxWeight);
    proof {
        if create { lem_entry_add(D, eps, n, M1, d + 1, T); lem_has_key_push(M1, T); if d < m0 { assert(has_key(M1, T.0)) by { assert(cl(D, eps, n, T.0@)); assert(level_ok(D, eps, n, lev(Wd, d as int), d + 1)); } } }
    }
at if.9.after:
    proof {
        let M2 = lev(this.weightedGraph@, d as int);
        if create {
            assert(M2 =~= M1 || M2 =~= M1.push(T));
            lem_upto_step(D, eps, n, L, M1, M2, d as int, j as int, t as int, T);
        } else { lem_upto_skip(D, eps, n, L, M1, d as int, j as int, t as int); }
    }
loop 7 decreases: this.weightedGraph@.len() - $i
@end

# ---------------------------------------------------------------- the stages that build and expand the complex
@fn neigh_graph_run
cxx: neighGraphPipe::runPipe
file: Pipes/neighGraphPipe.cpp
sig: pipePacket
self: mut NeighGraphPipe
params: inData
requires:
    inData.complex.weightedGraph@.len() == 0, inData.complex.maxDimension > 0, mat_ok(inData.complex.distMatrix@, inData.originalData@.len() as int),
ensures:
    *final(this) == *old(this),
    ret == (PipePacket { complex: SimplexArrayList { weightedGraph: ret.complex.weightedGraph, ..inData.complex }, ..inData }),
    lev(ret.complex.weightedGraph@, 0).len() == nonempty_upto(inData.originalData@, inData.originalData@.len() as int),
    rips(inData.complex.distMatrix@, inData.complex.maxEpsilon@, lev(ret.complex.weightedGraph@, 0).len() as int, ret.complex.weightedGraph@, 2),
loop 1 invariant:
    i <= ln, ln == inData_0.originalData@.len(), ln <= MAXLEN, *this == *old(this), inData == (PipePacket { complex: SimplexArrayList { weightedGraph: inData.complex.weightedGraph, ..inData_0.complex }, ..inData_0 }),
    lev(inData.complex.weightedGraph@, 0).len() == nonempty_upto(inData_0.originalData@, i as int),
    rips(inData_0.complex.distMatrix@, inData_0.complex.maxEpsilon@, lev(inData.complex.weightedGraph@, 0).len() as int, inData.complex.weightedGraph@, 2),
loop 1 decreases: ln - i
at entry:
    let ghost D = inData.complex.distMatrix@;
    let ln = inData.originalData.len();
    proof { lem_level_empty(D, inData.complex.maxEpsilon@, 0, 1); lem_level_empty(D, inData.complex.maxEpsilon@, 0, 2); assert(lev(inData.complex.weightedGraph@, 0) =~= Seq::<Entry>::empty()); assert(lev(inData.complex.weightedGraph@, 1) =~= Seq::<Entry>::empty()); }
at loop1.begin:
    proof { lem_nonempty_upto(inData_0.originalData@, i + 1); lem_nonempty_upto(inData_0.originalData@, i as int); assert(mat_ok(D, lev(inData.complex.weightedGraph@, 0).len() as int + 1)) by { assert forall|q: int| 0 <= q < lev(inData.complex.weightedGraph@, 0).len() + 1 implies (#[trigger] D[q])@.len() >= lev(inData.complex.weightedGraph@, 0).len() + 1 by { assert(D[q]@.len() >= inData_0.originalData@.len()); } } }
@end

@fn rips_run
cxx: ripsPipe::runPipe
file: Pipes/ripsPipe.cpp
sig: pipePacket
self: mut RipsPipe
params: inData
requires:
    old(this).dim >= 1, old(this).collapse != lit("true"), old(this).collapse != lit("1"),
    mat_ok(inData.complex.distMatrix@, lev(inData.complex.weightedGraph@, 0).len() as int),
    rips(inData.complex.distMatrix@, inData.complex.maxEpsilon@, lev(inData.complex.weightedGraph@, 0).len() as int, inData.complex.weightedGraph@, known(inData.complex.weightedGraph@)),
ensures:
    *final(this) == *old(this),
    ret == (PipePacket { complex: SimplexArrayList { weightedGraph: ret.complex.weightedGraph, ..inData.complex }, ..inData }),
    lev(ret.complex.weightedGraph@, 0) == lev(inData.complex.weightedGraph@, 0),
    rips(inData.complex.distMatrix@, inData.complex.maxEpsilon@, lev(inData.complex.weightedGraph@, 0).len() as int, ret.complex.weightedGraph@, imax(known(inData.complex.weightedGraph@), old(this).dim + 1)),
    rips(inData.complex.distMatrix@, inData.complex.maxEpsilon@, lev(inData.complex.weightedGraph@, 0).len() as int, inData.complex.weightedGraph@, old(this).dim + 1) ==> ret.complex.weightedGraph@ =~= inData.complex.weightedGraph@,
@end
