# P10: boundary matrices and their ranks
@fn bp_nsimplices
cxx: boundaryPipe::nSimplices
file: Pipes/boundaryPipe.cpp
sig: double; unsigned int; std::vector<std::pair<double,std::vector<unsigned int>>>
self: ref BoundaryPipe
params: epsilon n complex
ensures:
    ret@ == of_size(complex@, complex@.len() as int, n as int, epsilon@),
loop 1 invariant:
    ret@ == of_size(complex@, $i as int, n as int, epsilon@),
@end
@fn bp_checkface
cxx: boundaryPipe::checkFace
file: Pipes/boundaryPipe.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>
self: ref BoundaryPipe
params: face simplex
requires:
    dupfree(face@), dupfree(simplex@),
ensures:
    ret == face_bit(face@.to_set(), simplex@.to_set()),
at entry:
    proof { lem_dupset(face@); lem_dupset(simplex@); assert forall|r: CVec<u32>| sorted_lt(r@) implies #[trigger] r.view().to_set().len() == r@.len() by { lem_sorted_set_len(r@); } }
@end
@fn bp_reduce
cxx: boundaryPipe::reduceBoundaryMatrix
file: Pipes/boundaryPipe.cpp
sig: std::vector<std::vector<unsigned int>>
self: ref BoundaryPipe
params: boundaryMatrix
attrs:
#[verifier::rlimit(60)]
requires:
    boundaryMatrix@.len() > 0 ==> binm(boundaryMatrix@, boundaryMatrix@[0]@.len() as int),
ensures:
    boundaryMatrix@.len() == 0 ==> ret.0@.len() == 0 && ret.1.0 == 0 && ret.1.1 == 0,
    boundaryMatrix@.len() > 0 ==> ret.1.0 == rank(boundaryMatrix@, boundaryMatrix@.len() as int) && ret.1.1 == boundaryMatrix@[0]@.len() - ret.1.0 && ret.0@.len() == boundaryMatrix@.len(),
at entry:
    let ghost M = boundaryMatrix@; let ghost n = if M.len() > 0 { boundaryMatrix@[0]@.len() as int } else { 0 };
    let ghost mut F: spec_fn(Seq<u32>) -> Seq<u32> = |v: Seq<u32>| v; let ghost mut P = Set::<int>::empty();
    let ghost mut I = Seq::new(M.len(), |k: int| k);
    let ln = boundaryMatrix.len();
    proof { lem_red_init(M, n, F); assert forall|k: int| 0 <= k < M.len() implies I.contains(k) by { assert(I[k] == k); } assert(rest(M, M, F, P, I)); }
at loop1.before:
    let lc = (*boundaryMatrix.at(0)).len();
loop 1 invariant:
    0 < M.len() == ln <= MAXLEN, n == lc <= MAXLEN, columns == n, i <= n, binm(M, n),
    red(M, n, i as int, F, P), rest(boundaryMatrix@, M, F, P, I), P.finite(), P.len() == rank == ret@.len(), rank <= i,
    forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k])@.len() == n,
loop 1 decreases: n - i
at loop1.begin:
    let ghost mut found = false;
loop 2 invariant:
    0 <= i < n, rest(boundaryMatrix@, M, F, P, I), P.finite(), P.len() == rank == ret@.len(), boundaryMatrix@.len() <= ln,
    forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k])@.len() == n,
    found ==> red(M, n, i + 1, F, P) && j == boundaryMatrix@.len() + 1 && rank <= i + 1,
    !found ==> red(M, n, i as int, F, P) && j <= boundaryMatrix@.len() && rank <= i && forall|k: int| 0 <= k < j ==> F((M[#[trigger] I[k]])@)[i as int] == 0,
loop 2 decreases: boundaryMatrix@.len() + 1 - j
at loop2.begin:
    proof { lem_rest(boundaryMatrix@, M, n, i as int, F, P, I, j as int); }
at decl.tempRow:
    let ghost p = tempRow@; let ghost j0 = j as int; let ghost row = I[j0]; let ghost I1 = I.remove(j0); let ghost K0 = boundaryMatrix@;
    proof { assert(K0[j0]@ == F(M[row]@)); assert(bin(p, n)); }
at loop3.before:
    let ghost C0 = boundaryMatrix@;
    proof { assert(C0 =~= K0.remove(j0)); assert forall|k: int| 0 <= k < C0.len() implies (#[trigger] C0[k])@ == F(M[I1[k]]@) && bin(C0[k]@, n) && (k < j0 ==> C0[k]@[i as int] == 0) by { let q = if k < j0 { k } else { k + 1 }; assert(I1[k] == I[q]); assert(K0[q]@ == F(M[I[q]]@)); assert(bin(K0[q]@, n)); if k < j0 { assert(F(M[I[k]]@)[i as int] == 0); } } }
loop 3 invariant:
    j0 <= j <= boundaryMatrix@.len(), boundaryMatrix@.len() == C0.len(), !found,
    forall|k: int| 0 <= k < j ==> (#[trigger] boundaryMatrix@[k])@ == step1(i as int, p, C0[k]@),
    forall|k: int| j <= k < C0.len() ==> #[trigger] boundaryMatrix@[k] == C0[k],
loop 3 decreases: C0.len() - j
at loop3.begin:
    let ghost B0 = boundaryMatrix@;
    proof { assert(B0[j as int] == C0[j as int]); assert(bin(C0[j as int]@, n)); assert(bin(C0[0]@, n)); assert(boundaryMatrix@[0]@.len() == n); }
loop 4 invariant:
    d <= n, boundaryMatrix@.len() == C0.len(), boundaryMatrix@[0]@.len() == n, boundaryMatrix@[j as int]@.len() == n, B0[j as int] == C0[j as int],
    forall|k: int| 0 <= k < C0.len() && k != j ==> #[trigger] boundaryMatrix@[k] == B0[k],
    forall|c: int| 0 <= c < d ==> #[trigger] boundaryMatrix@[j as int]@[c] == bx(C0[j as int]@[c], p[c]),
    forall|c: int| d <= c < n ==> #[trigger] boundaryMatrix@[j as int]@[c] == C0[j as int]@[c],
loop 4 decreases: n - d
at loop4.begin:
    proof { lem_xor(C0[j as int]@[d as int], p[d as int]); }
at loop4.after:
    proof { assert(boundaryMatrix@[j as int]@ =~= vx(C0[j as int]@, p)); }
at loop3.after:
    proof {
        assert forall|k: int| 0 <= k < boundaryMatrix@.len() implies (#[trigger] boundaryMatrix@[k])@ == compose(i as int, p, F)(M[I1[k]]@) by { assert(C0[k]@ == F(M[I1[k]]@)); }
        assert forall|k: int| 0 <= k < row implies F((#[trigger] M[k])@)[i as int] == 0 by { lem_before(K0, M, n, i as int, F, P, I, j0, k); }
        lem_red_step(M, n, i as int, F, P, row);
        lem_rest_step(K0, boundaryMatrix@, M, F, compose(i as int, p, F), P, I, j0);
        F = compose(i as int, p, F); P = P.insert(row); I = I1; found = true;
        assert forall|k: int| 0 <= k < ret@.len() implies (#[trigger] ret@[k])@.len() == n by {}
    }
loop 6 invariant:
    d <= ret@.len() <= n, a@.len() == n,
loop 6 decreases: ret@.len() - d
at loop2.after:
    proof { if !found { assert forall|k: int| 0 <= k < M.len() implies F((#[trigger] M[k])@)[i as int] == 0 by { lem_before(boundaryMatrix@, M, n, i as int, F, P, I, boundaryMatrix@.len() as int, k); } lem_red_skip(M, n, i as int, F, P); } }
at loop1.after:
    proof { lem_red_done(M, n, F, P); lem_rank(M, P, M.len() as int); lem_rest_len(boundaryMatrix@, M, F, P, I); }
loop 7 invariant:
    ret@.len() == rank + $i, forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k])@.len() == n,
at loop7.begin:
    proof { assert(boundaryMatrix@[$i as int]@ == F(M[I[$i as int]]@)); assert(bin(M[I[$i as int]]@, n)); }
@end
@fn bp_boundary
cxx: boundaryPipe::boundaryMatrix
file: Pipes/boundaryPipe.cpp
sig: std::vector<std::vector<unsigned int>>; std::vector<std::vector<unsigned int>>
self: ref BoundaryPipe
params: nChain pChain
requires:
    forall|k: int| 0 <= k < nChain@.len() ==> dupfree((#[trigger] nChain@[k])@), forall|k: int| 0 <= k < pChain@.len() ==> dupfree((#[trigger] pChain@[k])@),
ensures:
    nChain@.len() == 0 ==> ret.0@.len() == 0 && ret.1.0 == 0 && ret.1.1 == pChain@.len(),
    nChain@.len() > 0 ==> ret.1.0 == rank(facem(nChain@, pChain@), nChain@.len() as int) && ret.1.1 == pChain@.len() - ret.1.0 && ret.0@.len() == nChain@.len(),
loop 1 invariant:
    i <= nl, nl == nChain@.len() <= MAXLEN, pl == pChain@.len() <= MAXLEN, boundary@ =~= facem(nChain@, pChain@).take(i as int),
loop 1 decreases: nl - i
at entry:
    let nl = nChain.len(); let pl = pChain.len();
loop 2 invariant:
    j <= pl, bDim@ =~= facem(nChain@, pChain@)[i as int]@.take(j as int),
loop 2 decreases: pl - j
at loop2.after:
    proof { assert(bDim@ =~= facem(nChain@, pChain@)[i as int]@); assert(cvec_of(bDim@) == bDim); }
at loop1.after:
    proof { assert(boundary@ =~= facem(nChain@, pChain@)); assert(boundary@[0]@.len() == pl); }
@end
@fn pp_nsimplices
cxx: persistencePairs::nSimplices
file: Pipes/persistencePairs.cpp
sig: double; unsigned int; std::vector<std::pair<double,std::vector<unsigned int>>>
self: ref PersistencePairs
params: epsilon n complex
ensures:
    ret@ == of_size(complex@, complex@.len() as int, n as int, epsilon@),
loop 1 invariant:
    ret@ == of_size(complex@, $i as int, n as int, epsilon@),
@end
@fn pp_checkface_v
cxx: persistencePairs::checkFace
file: Pipes/persistencePairs.cpp
sig: std::vector<unsigned int>; std::vector<unsigned int>
self: ref PersistencePairs
params: face simplex
requires:
    dupfree(face@), dupfree(simplex@),
ensures:
    ret == face_bit(face@.to_set(), simplex@.to_set()),
at entry:
    proof { lem_dupset(face@); lem_dupset(simplex@); assert forall|r: CVec<u32>| sorted_lt(r@) implies #[trigger] r.view().to_set().len() == r@.len() by { lem_sorted_set_len(r@); } }
@end
@fn pp_checkface_s
cxx: persistencePairs::checkFace
file: Pipes/persistencePairs.cpp
sig: std::set<unsigned int>; std::set<unsigned int>
self: ref PersistencePairs
params: face simplex
ensures:
    ret == face_bit(face.s(), simplex.s()),
at entry:
    proof {  assert forall|r: CVec<u32>| sorted_lt(r@) implies #[trigger] r.view().to_set().len() == r@.len() by { lem_sorted_set_len(r@); } }
@end
@fn pp_rank
cxx: persistencePairs::getRankNull
file: Pipes/persistencePairs.cpp
sig: std::vector<std::vector<unsigned int>>; unsigned int
self: ref PersistencePairs
params: boundaryMatrix offset
requires:
    boundaryMatrix@.len() > 0, binm(boundaryMatrix@, boundaryMatrix@[0]@.len() as int),
ensures:
    forall|k: u32| #[trigger] ret.s().contains(k) <==> pivot(boundaryMatrix@, k as int),
at entry:
    let ghost M = boundaryMatrix@; let ghost n = boundaryMatrix@[0]@.len() as int;
    let ghost mut F: spec_fn(Seq<u32>) -> Seq<u32> = |v: Seq<u32>| v; let ghost mut P = Set::<int>::empty();
    let ln = boundaryMatrix.len(); let lc = (*boundaryMatrix.at(0)).len();
    proof { lem_red_init(M, n, F); }
loop 1 invariant:
    0 < M.len() == ln <= MAXLEN, n == lc <= MAXLEN, i <= n, tracks(boundaryMatrix@, M, F),
    red(M, n, i as int, F, P), forall|k: u32| #[trigger] ret.s().contains(k) <==> P.contains(k as int),
loop 1 decreases: n - i
at loop1.begin:
    let ghost mut found = false;
    proof { lem_tracks(boundaryMatrix@, M, n, i as int, F, P); }
loop 2 invariant:
    0 <= i < n, tracks(boundaryMatrix@, M, F), binm(boundaryMatrix@, n),
    forall|k: u32| #[trigger] ret.s().contains(k) <==> P.contains(k as int),
    found ==> red(M, n, i + 1, F, P) && j == ln + 1,
    !found ==> red(M, n, i as int, F, P) && j <= ln && forall|k: int| 0 <= k < j ==> F((#[trigger] M[k])@)[i as int] == 0,
loop 2 decreases: ln + 1 - j
at decl.tempColumn:
    let ghost C0 = boundaryMatrix@; let ghost p = tempColumn@; let ghost j0 = j as int;
    proof { assert(C0[j0]@ == F(M[j0]@)); assert(bin(p, n)); }
loop 3 invariant:
    j0 <= j <= ln, boundaryMatrix@.len() == ln, !found,
    forall|k: int| 0 <= k < j ==> (#[trigger] boundaryMatrix@[k])@ == step1(i as int, p, C0[k]@),
    forall|k: int| j <= k < ln ==> #[trigger] boundaryMatrix@[k] == C0[k],
loop 3 decreases: ln - j
at loop3.before:
    proof { assert forall|k: int| 0 <= k < j implies (#[trigger] boundaryMatrix@[k])@ == step1(i as int, p, C0[k]@) by { assert(F((M[k])@)[i as int] == 0); } }
at loop3.begin:
    let ghost B0 = boundaryMatrix@;
    proof { assert(B0[j as int] == C0[j as int]); assert(bin(C0[j as int]@, n)); assert(bin(C0[0]@, n)); assert(boundaryMatrix@[0]@.len() == n); }
loop 4 invariant:
    d <= n, boundaryMatrix@.len() == ln, boundaryMatrix@[0]@.len() == n, boundaryMatrix@[j as int]@.len() == n, B0[j as int] == C0[j as int],
    forall|k: int| 0 <= k < ln && k != j ==> #[trigger] boundaryMatrix@[k] == B0[k],
    forall|c: int| 0 <= c < d ==> #[trigger] boundaryMatrix@[j as int]@[c] == bx(C0[j as int]@[c], p[c]),
    forall|c: int| d <= c < n ==> #[trigger] boundaryMatrix@[j as int]@[c] == C0[j as int]@[c],
loop 4 decreases: n - d
at loop4.begin:
    proof { lem_xor(C0[j as int]@[d as int], p[d as int]); }
at loop4.after:
    proof { assert(boundaryMatrix@[j as int]@ =~= vx(C0[j as int]@, p)); }
at loop3.after:
    proof {
        assert forall|k: int| 0 <= k < M.len() implies (#[trigger] boundaryMatrix@[k])@ == compose(i as int, p, F)(M[k]@) by { assert(C0[k]@ == F(M[k]@)); }
        lem_red_step(M, n, i as int, F, P, j0);
        F = compose(i as int, p, F); P = P.insert(j0); found = true;
        lem_tracks(boundaryMatrix@, M, n, i + 1, F, P);
    }
at loop2.after:
    proof { if !found { lem_red_skip(M, n, i as int, F, P); } }
at return:
    proof { lem_red_done(M, n, F, P); assert(forall|k: u32| pivot(M, k as int) ==> 0 <= k < M.len()); }
@end
@fn pp_pivots
cxx: persistencePairs::createBoundaryMatrix
file: Pipes/persistencePairs.cpp
sig: std::vector<std::vector<std::pair<std::set<unsigned int>,double>>>
self: ref PersistencePairs
params: edges
requires:
    below(edges@, edges@.len() as int) <= MAXLEN, forall|d: int| 1 <= d < edges@.len() ==> (#[trigger] edges@[d])@.len() > 0,
ensures:
    forall|g: u32| #[trigger] ret.s().contains(g) <==> is_pivot_simplex(edges@, 1, g as int),
at entry:
    let el = edges.len();
loop 1 invariant:
    totalEdges == below(edges@, $i as int),
at loop1.begin:
    proof { lem_below(edges@, $i + 1, edges@.len() as int); lem_below(edges@, 0, $i as int); }
loop 2 invariant:
    el == edges@.len() <= MAXLEN, -1 <= d < el, el > 0 ==> d >= 0, totalEdges == below(edges@, edges@.len() as int), lastCount == below(edges@, d + 1),
    forall|g: u32| #[trigger] pivots.s().contains(g) <==> is_pivot_simplex(edges@, d + 1, g as int),
loop 2 decreases: d
at loop2.before:
    proof { assert forall|g: u32| !#[trigger] is_pivot_simplex(edges@, el as int, g as int) by {} }
at loop2.begin:
    let ghost T = facem_s(edges@[d as int]@, edges@[d - 1]@);
    proof { lem_below(edges@, d as int, d + 1); lem_below(edges@, 0, d as int); lem_below(edges@, d + 1, edges@.len() as int); }
at loop3.before:
    let pl = pChain.len(); let nl = nChain.len();
loop 3 invariant:
    i <= pl, pl == pChain@.len() <= MAXLEN, nl == nChain@.len() <= MAXLEN, tempBoundary@.len() == pl, nChain == edges@[d - 1], pChain == edges@[d as int],
    forall|k: int| 0 <= k < pl ==> (#[trigger] tempBoundary@[k])@.len() == nl,
    forall|k: int| 0 <= k < i ==> #[trigger] tempBoundary@[k] == T[k],
loop 3 decreases: pl - i
at loop3.begin:
    let ghost B0 = tempBoundary@;
loop 4 invariant:
    j <= nl, tempBoundary@.len() == pl, tempBoundary@[i as int]@.len() == nl,
    forall|k: int| 0 <= k < pl && k != i ==> #[trigger] tempBoundary@[k] == B0[k],
    forall|c: int| 0 <= c < j ==> #[trigger] tempBoundary@[i as int]@[c] == T[i as int]@[c],
loop 4 decreases: nl - j
at loop4.after:
    proof { assert(tempBoundary@[i as int]@ =~= T[i as int]@); assert(cvec_of(tempBoundary@[i as int]@) == tempBoundary@[i as int]); }
at loop3.after:
    proof { assert(tempBoundary@ =~= T); assert(binm(T, nl as int)); }
at loop5.before:
    let ghost Q0 = pivots.s();
loop 5 invariant:
    lastCount == below(edges@, d as int), forall|g: u32| #[trigger] pivots.s().contains(g) <==> Q0.contains(g) || exists|m: int| 0 <= m < $i && g == lastCount + #[trigger] lastPivots@[m],
at loop5.begin:
    proof { assert(lastPivots.s().contains(lastPivots@[$i as int])); assert(pivot(T, lastPivots@[$i as int] as int)); }
at loop5.after:
    proof {
        assert forall|g: u32| #[trigger] pivots.s().contains(g) <==> is_pivot_simplex(edges@, d as int, g as int) by {
            if is_pivot_simplex(edges@, d as int, g as int) {
                let e = choose|e: int| d <= e < edges@.len() && #[trigger] pivot(facem_s(edges@[e]@, edges@[e - 1]@), g - below(edges@, e));
                if e == d { let a = (g - lastCount) as u32; assert(pivot(T, a as int)); assert(lastPivots.s().contains(a)); assert(lastPivots@.contains(a)); let m = choose|m: int| 0 <= m < lastPivots@.len() && lastPivots@[m] == a; assert(g == lastCount + lastPivots@[m]); }
                else { assert(is_pivot_simplex(edges@, d + 1, g as int)); assert(Q0.contains(g)); }
            }
            if pivots.s().contains(g) {
                if Q0.contains(g) { assert(is_pivot_simplex(edges@, d + 1, g as int)); }
                else { let m = choose|m: int| 0 <= m < lastPivots@.len() && g == lastCount + #[trigger] lastPivots@[m]; assert(lastPivots.s().contains(lastPivots@[m])); assert(pivot(T, lastPivots@[m] as int)); assert(pivot(facem_s(edges@[d as int]@, edges@[d - 1]@), g - below(edges@, d as int))); }
            }
        }
    }
@end
