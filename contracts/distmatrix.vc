@fn set_distance_matrix
cxx: simplexBase::setDistanceMatrix
file: Complex/simplexBase.cpp
sig: std::vector<std::vector<double>>
self: mut SimplexBase
params: dmat
ensures:
    *final(this) == (SimplexBase { distMatrix: dmat, ..*old(this) }),
@end

@fn dist_matrix_run
cxx: distMatrixPipe::runPipe
file: Pipes/distMatrixPipe.cpp
sig: pipePacket
self: mut DistMatrixPipe
params: inData
requires:
    exists|d: int| d >= 1 && same_dim(inData.originalData@, d),
ensures:
    *final(this) == *old(this),
    ret.complex.distMatrix@.len() == inData.originalData@.len(),
    forall|i: int| 0 <= i < inData.originalData@.len() ==> (#[trigger] ret.complex.distMatrix@[i])@.len() == inData.originalData@.len(),
    forall|i: int, j: int| #![trigger ret.complex.distMatrix@[i]@[j]] 0 <= i < inData.originalData@.len() && 0 <= j < inData.originalData@.len() ==> dm_ok(ret.complex.distMatrix@, inData.originalData@, i, j),
    forall|w: F64| #[trigger] ret.weights.s().contains(w) <==> inData.weights.s().contains(w) || is_below(inData.originalData@, old(this).maxEpsilon@, inData.originalData@.len() as int, 0, w) || w@ == 0real || w@ == old(this).maxEpsilon@,
    ret == (PipePacket { complex: SimplexBase { distMatrix: ret.complex.distMatrix, ..inData.complex }, weights: ret.weights, ..inData }),
loop 1 invariant:
    i <= n <= MAXLEN, D == inData_0.originalData@, n == D.len(), dim >= 1, same_dim(D, dim), distMatrix@.len() == n, *this == *old(this),
    inData == (PipePacket { weights: inData.weights, ..inData_0 }),
    forall|a: int| 0 <= a < n ==> (#[trigger] distMatrix@[a])@.len() == n,
    forall|a: int, b: int| #![trigger distMatrix@[a]@[b]] 0 <= a < i && 0 <= b < n ==> dm_ok(distMatrix@, D, a, b),
    forall|a: int, b: int| #![trigger distMatrix@[a]@[b]] i <= a < n && 0 <= b < n ==> distMatrix@[a]@[b]@ == 0real,
    forall|w: F64| #[trigger] inData.weights.s().contains(w) <==> inData_0.weights.s().contains(w) || is_below(D, this.maxEpsilon@, i as int, 0, w),
loop 1 decreases: n - i
loop 2 invariant:
    i < n, i + 1 <= j, j <= n || j == i + 1, D == inData_0.originalData@, n == D.len(), n <= MAXLEN, dim >= 1, same_dim(D, dim), distMatrix@.len() == n, *this == *old(this),
    inData == (PipePacket { weights: inData.weights, ..inData_0 }),
    forall|a: int| 0 <= a < n ==> (#[trigger] distMatrix@[a])@.len() == n,
    forall|a: int, b: int| #![trigger distMatrix@[a]@[b]] 0 <= a < i && 0 <= b < n ==> dm_ok(distMatrix@, D, a, b),
    forall|b: int| #![trigger distMatrix@[i as int]@[b]] 0 <= b < j && b < n ==> dm_ok(distMatrix@, D, i as int, b),
    forall|b: int| #![trigger distMatrix@[i as int]@[b]] j <= b < n ==> distMatrix@[i as int]@[b]@ == 0real,
    forall|a: int, b: int| #![trigger distMatrix@[a]@[b]] i < a < n && 0 <= b < n ==> distMatrix@[a]@[b]@ == 0real,
    forall|w: F64| #[trigger] inData.weights.s().contains(w) <==> inData_0.weights.s().contains(w) || is_below(D, this.maxEpsilon@, i as int, j as int, w),
loop 2 decreases: n + 1 - j
at loop1.before:
    let nn = inData.originalData.len(); let ghost n: int = nn as int; let ghost D = inData_0.originalData@; let ghost dim = choose|d: int| d >= 1 && same_dim(D, d);
    assert forall|a: int, b: int| #![trigger distMatrix@[a]@[b]] 0 <= a < n && 0 <= b < n implies distMatrix@[a]@[b]@ == 0real by {}
at loop2.begin:
    let ghost w0 = inData.weights.s(); let ghost m0 = distMatrix@;
    proof { assert(D[i as int]@.len() == dim && D[j as int]@.len() == dim); }
at loop2.end:
    proof { lem_below_step(D, this.maxEpsilon@, i as int, j as int, dist); }
at loop2.before:
    proof {
        assert forall|w: F64| #[trigger] is_below(D, this.maxEpsilon@, i as int, i + 1, w) <==> is_below(D, this.maxEpsilon@, i as int, 0, w) by { }
        assert forall|b: int| #![trigger distMatrix@[i as int]@[b]] 0 <= b < i + 1 && b < n implies dm_ok(distMatrix@, D, i as int, b) by {}
    }
at loop1.end:
    proof {
        assert forall|w: F64| #[trigger] is_below(D, this.maxEpsilon@, i as int, n, w) <==> is_below(D, this.maxEpsilon@, i + 1, 0, w) by { lem_below_row(D, this.maxEpsilon@, i as int, w); }
    }
@end
