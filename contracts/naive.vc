@fn st_insert_iterative
cxx: simplexTree::insertIterative
file: Complex/simplexTree.cpp
self: mut SimplexTree
requires:
    ev_pure(old(this).streamEval), old(this).removedSimplices < MAXLEN,
ensures:
    *final(currentVector) == *old(currentVector), *final(window) == *old(window),
    final(this).streamEval == old(this).streamEval,
    ret == (old(window)@.len() == 0 || ev_accepts(old(this).streamEval, old(currentVector)@, old(window)@)),
@end

@fn sb_set_evaluator
cxx: simplexBase::setStreamEvaluator
file: Complex/simplexBase.cpp
self: mut SimplexBase
ensures:
    final(this).streamEval == f,
@end

@fn sample_stream_evaluator
cxx: naiveWindow::sampleStreamEvaluator
file: Pipes/naiveWindow.cpp
self: none
ensures:
    ret, *final(vector) == *old(vector), *final(window) == *old(window),
@end

@fn nw_initializer
cxx: naiveWindow::runComplexInitializer
file: Pipes/naiveWindow.cpp
self: mut NaiveWindow
requires:
    !old(inData).complex.null,
ensures:
    *final(this) == *old(this),
    old(inData).originalData@.len() > 0 ==> initialised(old(this).subConfigMap@, *old(inData), *final(inData)),
    old(inData).originalData@.len() == 0 ==> *final(inData) == *old(inData),
    same_object(final(inData).complex, old(inData).complex),
at entry:
    let ghost cfg = this.subConfigMap@; let ghost w0 = *inData; let ghost mut tr: Seq<PipePacket> = seq![*inData];
    proof { ax_lits(); lem_estr(); lem_init_names(); }
at decl.pipeFuncts:
    let ghost names = init_names();
    proof { lem_count(pipeFuncts@); lem_count_le(pipeFuncts@, 46); assert(names.skip(0) =~= names); }
loop 1 invariant:
    0 <= i <= lim, lim == 2, names == init_names(), *this == *old(this), cfg == this.subConfigMap@,
    i < lim ==> pieces(pipeFuncts@) == names.skip(i as int),
    tr.len() == i + 1, tr[0] == w0, tr.last() == *inData, same_object(inData.complex, w0.complex),
    forall|k: int| 0 <= k < i ==> init_step(#[trigger] names[k], cfg, tr[k], tr[k + 1]),
loop 1 decreases:
    lim - i
at loop1.begin:
    let ghost wb = *inData; let ghost pf = pipeFuncts@; let ln2 = pipeFuncts.len();
    proof { lem_dot(pf); assert(pieces(pf)[0] == names[i as int]); assert(pieces(pf).skip(1) =~= names.skip(i + 1)); reveal_with_fuel(pieces, 2); }
at decl.curFunct:
    proof { if dot_at(pf) < pf.len() { lem_dot_unique(pf, dot_at(pf)); } assert(curFunct@ =~= pf.subrange(0, dot_at(pf))); assert(pieces(pf)[0] == cstr_of(pf.subrange(0, dot_at(pf)))) by { if dot_at(pf) == pf.len() { assert(pf.subrange(0, dot_at(pf)) =~= pf); } } assert(curFunct@ =~= pieces(pf)[0]@); assert(curFunct == names[i as int]); }
at loop1.end:
    assert(i + 1 < lim ==> pieces(pf).len() > 1);
    proof { ax_stage_complex(lit("distMatrixPipe"), cfg, wb); ax_stage_complex(lit("neighGraphPipe"), cfg, wb); }
    assert(init_step(names[i as int], cfg, wb, *inData));
    proof { tr = tr.push(*inData); }
at loop1.after:
    assert(init_step(names[0], cfg, tr[0], tr[1]) && init_step(names[1], cfg, tr[1], tr[2]));
@end

@fn nw_run
cxx: naiveWindow::runPipe
file: Pipes/naiveWindow.cpp
self: mut NaiveWindow
globals: disk
requires:
    streaming(inData.complex),
    readable(old(disk)@, old(this).inputFile@) ==> stream_ok(old(disk)@[old(this).inputFile@]) && stream_rows(old(disk)@[old(this).inputFile@]).len() < MAXLEN - 1,
ensures:
    !readable(old(disk)@, old(this).inputFile@) ==> ret == inData,
    readable(old(disk)@, old(this).inputFile@) ==> naive_packet(old(this).subConfigMap@, stream_rows(old(disk)@[old(this).inputFile@]), stream_rows(old(disk)@[old(this).inputFile@]).len() as int, inData, ret),
at entry:
    broadcast use lem_nl;
    let ghost c = disk@[this.inputFile@]; let ghost r = stream_rows(c); let ghost cfg = this.subConfigMap@; let ghost a = inData; let ghost mut p: int = 0; let ghost mut d0 = inData; let ghost mut d1 = inData; let ghost mut g = c;
    assert(r.subrange(0, 0) + stream_rows(c) =~= r); assert(window(r, 0) =~= Seq::<Seq<F64>>::empty());
loop 1 invariant:
    *disk == *old(disk), this.subConfigMap@ == cfg, windowMaxSize == 50,
    pointCounter == p + 1, 0 <= p <= r.len(), r.len() < MAXLEN - 1, inData_0 == a,
    !rp.pFile.isnull(), currentVector@.len() == 0,
    vrows(windowValues@) == window(r, p),
    streaming(inData.complex),
    p < 50 ==> inData == a,
    p >= 50 ==> evaluator_sample(inData.complex) && initialised(cfg, d0, d1) && same_rest(d0, a) && d0.complex == a.complex && vrows(d0.originalData@) == r.subrange(0, 50) && same_rest(inData, d1),
    50 <= p < 100 ==> inData.originalData == d1.originalData,
    p >= 100 ==> vrows(inData.originalData@) == window(r, p - p % 100),
loop 1 except:
    g == rp.pFile.rest(), stream_ok(rp.pFile.rest()), r == r.subrange(0, p) + stream_rows(rp.pFile.rest()),
loop 1 decreases:
    r.len() - p
loop 1 ensures:
    strip(first_line(g)).len() == 0, r == r.subrange(0, p) + stream_rows(g),
at loop1.begin:
    let ghost w0 = windowValues@; let ghost x = currentVector; let ghost q = p;
    proof {
        let t = strip(first_line(g)); let rest = stream_rows(after(g));
        assert(stream_rows(g) == seq![nums(t)] + rest);
        assert(x@ =~= nums(t));
        assert(r[p] == x@); assert(r.subrange(0, p) + stream_rows(g) =~= r.subrange(0, p + 1) + rest);
        lem_window_step(r, p); lem_vrows_push(w0, x);
        assert(w0.len() == vrows(w0).len());
        if w0.len() > 0 { lem_vrows_remove(w0); lem_vrows_push(w0.remove(0), x); }
    }
at call.runComplexInitializer.1.before:
    proof { d0 = inData; assert(window(r, 50) =~= r.subrange(0, 50)); }
at call.runComplexInitializer.1:
    proof { d1 = inData; }
at loop1.end:
    proof { p = p + 1; g = rp.pFile.rest(); }
at loop1.after:
    proof { let t = strip(first_line(g)); assert(stream_rows(g) =~= Seq::<Seq<F64>>::empty()); }
@end
