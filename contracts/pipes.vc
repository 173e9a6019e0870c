@fn cfg_dm
cxx: distMatrixPipe::configPipe
file: Pipes/distMatrixPipe.cpp
self: mut DistMatrixPipe
ensures:
    ret == stage_ok(lit("distMatrixPipe"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_ng
cxx: neighGraphPipe::configPipe
file: Pipes/neighGraphPipe.cpp
self: mut NeighGraphPipe
ensures:
    ret == stage_ok(lit("neighGraphPipe"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).epsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_rp
cxx: ripsPipe::configPipe
file: Pipes/ripsPipe.cpp
self: mut RipsPipe
ensures:
    ret == stage_ok(lit("ripsPipe"), configMap@),
    final(this).configured == (ret || old(this).configured),
    configMap@.contains_key(lit("dimensions")) ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_up
cxx: upscalePipe::configPipe
file: Pipes/upscalePipe.cpp
self: mut UpscalePipe
ensures:
    ret == stage_ok(lit("upscalePipe"), configMap@),
    final(this).configured == (ret || old(this).configured),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_bp
cxx: boundaryPipe::configPipe
file: Pipes/boundaryPipe.cpp
self: mut BoundaryPipe
ensures:
    ret == stage_ok(lit("boundaryPipe"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_pp
cxx: persistencePairs::configPipe
file: Pipes/persistencePairs.cpp
self: mut PersistencePairs
ensures:
    ret == stage_ok(lit("persistencePairs"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_op
cxx: optPersistencePairs::configPipe
file: Pipes/optPersistencePairs.cpp
self: mut OptPersistencePairs
ensures:
    ret == stage_ok(lit("optPersistencePairs"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_fp
cxx: fastPersistence::configPipe
file: Pipes/fastPersistence.cpp
self: mut FastPersistence
ensures:
    ret == stage_ok(lit("fastPersistence"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_sw
cxx: slidingWindow::configPipe
file: Pipes/slidingWindow.cpp
self: mut SlidingWindow
ensures:
    ret == stage_ok(lit("slidingWindow"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).epsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_nw
cxx: naiveWindow::configPipe
file: Pipes/naiveWindow.cpp
self: mut NaiveWindow
ensures:
    ret == stage_ok(lit("naiveWindow"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).epsilon@ == s_atof(configMap@[lit("epsilon")]),
    ret ==> final(this).dim == s_atoi(configMap@[lit("dimensions")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_km
cxx: kMeansPlusPlus::configPreprocessor
file: Preprocessing/kMeansPlusPlus.cpp
self: mut KMeansPlusPlus
ensures:
    ret == pre_ok(lit("kMeansPlusPlus"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).num_clusters == s_atoi(configMap@[lit("clusters")]),
    ret ==> final(this).num_iterations == s_atoi(configMap@[lit("iterations")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_sk
cxx: streamingKmeans::configPreprocessor
file: Preprocessing/streamingKmeans.cpp
self: mut StreamingKmeans
ensures:
    ret == pre_ok(lit("streamingKmeans"), configMap@),
    final(this).configured == (ret || old(this).configured),
    ret ==> final(this).numClusters == s_atoi(configMap@[lit("clusters")]),
    ret ==> final(this).num_iterations == s_atoi(configMap@[lit("iterations")]),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_ds
cxx: denStream::configPreprocessor
file: Preprocessing/denStream.cpp
self: mut DenStream
ensures:
    ret == pre_ok(lit("denStream"), configMap@),
    final(this).configured == (ret || old(this).configured),
at entry:
    proof { ax_lits(); }
@end

@fn cfg_pre
cxx: preprocessor::configPreprocessor
file: Preprocessing/preprocessor.cpp
self: mut Preprocessor
ensures:
    ret == pre_ok(lit("preprocessor"), configMap@),
    final(this).configured == old(this).configured,
at entry:
    proof { ax_lits(); }
@end

@fn run_pre_base
cxx: preprocessor::runPreprocessor
file: Preprocessing/preprocessor.cpp
self: mut Preprocessor
ensures:
    ret == inData,
@end

@fn run_base
cxx: basePipe::runPipe
file: Pipes/basePipe.cpp
self: mut BasePipe
ensures:
    ret == inData,
@end

@fn new_pipe
cxx: basePipe::newPipe
file: Pipes/basePipe.cpp
self: dyn BasePtr
requires:
    !old(this).null,
ensures:
    ret.null == stage_class(*pipeT, *complexType).is_none(),
    !ret.null ==> ret.cls == stage_class(*pipeT, *complexType).unwrap() && !ret.base.configured && ret.cfg@ == None::<Map<CStr,CStr>>,
at entry:
    proof { ax_lits(); }
@end

@fn new_preproc
cxx: preprocessor::newPreprocessor
file: Preprocessing/preprocessor.cpp
self: dyn PrePtr
requires:
    !old(this).null,
ensures:
    ret.null == pre_class(*procT).is_none(),
    !ret.null ==> ret.cls == pre_class(*procT).unwrap() && !ret.base.configured && ret.cfg@ == None::<Map<CStr,CStr>>,
at entry:
    proof { ax_lits(); }
@end

@fn sb_set_config
cxx: simplexBase::setConfig
file: Complex/simplexBase.cpp
self: mut SimplexBase
ensures:
    has_key(configMap@, "dimensions") ==> final(this).maxDimension == s_atoi(configMap@[lit("dimensions")]),
    has_key(configMap@, "dimensions") && has_key(configMap@, "epsilon") ==> final(this).maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
at entry:
    proof { ax_lits(); }
@end

@fn new_simplex
cxx: simplexBase::newSimplex
file: Complex/simplexBase.cpp
self: dyn SimpPtr
requires:
    !old(this).null,
ensures:
    ret.null == complex_class(*simplexT).is_none(),
    !ret.null ==> ret.cls == complex_class(*simplexT).unwrap(),
    !ret.null && has_key(configMap@, "dimensions") ==> ret.base.maxDimension == s_atoi(configMap@[lit("dimensions")]),
    !ret.null && has_key(configMap@, "dimensions") && has_key(configMap@, "epsilon") ==> ret.base.maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
at entry:
    proof { ax_lits(); }
@end

@fn pipe_packet_new
cxx: pipePacket::pipePacket
file: Pipes/pipePacket.cpp
sig: std::map<std::string, std::string>; std::string
params: configMap simplexType
self: ctor PipePacket
ensures:
    fresh_packet(ret), ret.complex.null == complex_class(*simplexType).is_none(),
    !ret.complex.null ==> ret.complex.cls == complex_class(*simplexType).unwrap(),
    !ret.complex.null && has_key(configMap@, "dimensions") ==> ret.complex.base.maxDimension == s_atoi(configMap@[lit("dimensions")]),
    !ret.complex.null && has_key(configMap@, "dimensions") && has_key(configMap@, "epsilon") ==> ret.complex.base.maxEpsilon@ == s_atof(configMap@[lit("epsilon")]),
at entry:
    proof { ax_lits(); lem_estr(); }
@end

@fn run_pipe_wrapper
cxx: basePipe::runPipeWrapper
file: Pipes/basePipe.cpp
self: dyn BasePtr
requires:
    !old(this).null,
    old(this).base.configured ==> old(this).cfg@.is_some(),
    !inData.complex.null,
ensures:
    !ret.complex.null,
    !old(this).base.configured ==> ret == inData,
    old(this).base.configured ==> same_data(ret, stage_out(old(this).cls, old(this).cfg@.unwrap(), inData)),
    old(this).base.configured ==> stat_line(stage_out(old(this).cls, old(this).cfg@.unwrap(), inData).stats@, old(this).base.pipeType@, ret.stats@),
at return:
    proof { if old(this).base.configured {
        let a = stage_out(old(this).cls, old(this).cfg@.unwrap(), inData_0).stats@; let p = this.base.pipeType@; let z = inData.stats@; reveal_strlit(","); reveal_strlit("\n");
        let t = z.subrange((a.len() + p.len() + 1) as int, z.len() - 1);
        assert(z =~= a + p + lit(",")@ + t + lit("\n")@);
    } }
@end

@fn run_pre_wrapper
cxx: preprocessor::runPreprocessorWrapper
file: Preprocessing/preprocessor.cpp
self: dyn PrePtr
requires:
    !old(this).null,
    old(this).base.configured ==> old(this).cfg@.is_some(),
    !inData.complex.null,
ensures:
    !ret.complex.null,
    !old(this).base.configured ==> ret == inData,
    old(this).base.configured ==> same_data(ret, pre_out(old(this).cls, old(this).cfg@.unwrap(), inData)),
@end

@fn run_pipeline
cxx: runPipeline
file: LHFmain/main.cpp
self: none
mutptr: wD
globals: disk
requires:
    !old(wD).complex.null,
ensures:
    !final(wD).complex.null,
    pipeline_result(args@, *old(wD), *final(wD)),
    results_written(args@, *final(wD), old(disk)@, final(disk)@),
at entry:
    let ghost d0 = disk@;
    let ghost m0 = args@; let ghost w0 = *wD; let ghost mut tr: Seq<PipePacket> = seq![*wD];
    proof { ax_lits(); lem_estr(); }
at decl.pipeFuncts:
    let ghost names = pieces(m0[lit("pipeline")]@);
    let ln = pipeFuncts.len();
    proof { lem_count(pipeFuncts@); lem_count_le(pipeFuncts@, 46); assert(names.skip(0) =~= names); }
loop 1 invariant:
    0 <= i <= lim, lim == names.len(), lim <= MAXLEN + 1, names.len() >= 1,
    m0.contains_key(lit("pipeline")), names == pieces(m0[lit("pipeline")]@), lit("pipeline") != lit("complexType"), lit("")@ == Seq::<u8>::empty(), cstr_of(Seq::<u8>::empty()) == lit(""),
    args@ == m0 || args@ == with_complex(m0), i > 0 ==> args@ == with_complex(m0), disk@ == d0,
    i < lim ==> pieces(pipeFuncts@) == names.skip(i as int),
    !wD.complex.null, tr.len() == i + 1, tr[0] == w0, tr.last() == *wD,
    forall|k: int| 0 <= k < i ==> stage_step(#[trigger] names[k], with_complex(m0), tr[k], tr[k + 1]),
loop 1 decreases:
    lim - i
at loop1.begin:
    let ghost wb = *wD; let ghost pf = pipeFuncts@; let ln2 = pipeFuncts.len();
    proof { lem_dot(pf); assert(pieces(pf)[0] == names[i as int]); assert(pieces(pf).skip(1) =~= names.skip(i + 1)); reveal_with_fuel(pieces, 2); }
at decl.curFunct:
    proof { if dot_at(pf) < pf.len() { lem_dot_unique(pf, dot_at(pf)); } assert(curFunct@ =~= pf.subrange(0, dot_at(pf))); assert(pieces(pf)[0] == cstr_of(pf.subrange(0, dot_at(pf)))) by { if dot_at(pf) == pf.len() { assert(pf.subrange(0, dot_at(pf)) =~= pf); } } assert(curFunct@ =~= pieces(pf)[0]@); assert(curFunct == names[i as int]); }
at loop1.end:
    assert(i + 1 < lim ==> pieces(pf).len() > 1);
    assert(args@ =~= with_complex(m0));
    assert(stage_step(names[i as int], with_complex(m0), wb, *wD));
    proof { tr = tr.push(*wD); }
at loop1.after:
    assert(pipeline_trace(names, with_complex(m0), tr));
@end

@fn process_data
cxx: processDataWrapper
file: LHFmain/main.cpp
self: none
mutptr: wD
globals: disk
requires:
    !old(wD).complex.null,
ensures:
    !final(wD).complex.null,
    exists|w: PipePacket| #[trigger] pre_result(args@, *old(wD), w) && pipeline_result(with_pre(args@), w, *final(wD)),
    results_written(with_pre(args@), *final(wD), old(disk)@, final(disk)@),
at entry:
    let ghost m0 = args@; let ghost w0 = *wD;
    proof { ax_lits(); lem_estr(); }
at decl.pre:
    assert(args@ =~= with_pre(m0));
    assert(forall|c: CStr| pre_class(pre) == Some(c) ==> pre_ok(c, with_pre(m0)) == pre_ok(c, m0));
at if.1.after:
    let ghost w1 = *wD;
    assert(pre_result(m0, w0, w1));
@end

@fn ctor_dm
cxx: distMatrixPipe::distMatrixPipe
file: Pipes/distMatrixPipe.cpp
self: ctor DistMatrixPipe
ensures:
    !ret.configured,
@end

@fn ctor_ng
cxx: neighGraphPipe::neighGraphPipe
file: Pipes/neighGraphPipe.cpp
self: ctor NeighGraphPipe
ensures:
    !ret.configured,
@end

@fn ctor_rp
cxx: ripsPipe::ripsPipe
file: Pipes/ripsPipe.cpp
self: ctor RipsPipe
ensures:
    !ret.configured,
@end

@fn ctor_up
cxx: upscalePipe::upscalePipe
file: Pipes/upscalePipe.cpp
self: ctor UpscalePipe
ensures:
    !ret.configured,
@end

@fn ctor_bp
cxx: boundaryPipe::boundaryPipe
file: Pipes/boundaryPipe.cpp
self: ctor BoundaryPipe
ensures:
    !ret.configured,
@end

@fn ctor_pp
cxx: persistencePairs::persistencePairs
file: Pipes/persistencePairs.cpp
self: ctor PersistencePairs
ensures:
    !ret.configured,
@end

@fn ctor_op
cxx: optPersistencePairs::optPersistencePairs
file: Pipes/optPersistencePairs.cpp
self: ctor OptPersistencePairs
ensures:
    !ret.configured,
@end

@fn ctor_fp
cxx: fastPersistence::fastPersistence
file: Pipes/fastPersistence.cpp
self: ctor FastPersistence
ensures:
    !ret.configured,
@end

@fn ctor_sw
cxx: slidingWindow::slidingWindow
file: Pipes/slidingWindow.cpp
self: ctor SlidingWindow
ensures:
    !ret.configured,
@end

@fn ctor_nw
cxx: naiveWindow::naiveWindow
file: Pipes/naiveWindow.cpp
self: ctor NaiveWindow
ensures:
    !ret.configured,
@end

@fn ctor_km
cxx: kMeansPlusPlus::kMeansPlusPlus
file: Preprocessing/kMeansPlusPlus.cpp
self: ctor KMeansPlusPlus
sig:
ensures:
    !ret.configured,
@end

@fn ctor_sk
cxx: streamingKmeans::streamingKmeans
file: Preprocessing/streamingKmeans.cpp
self: ctor StreamingKmeans
sig:
ensures:
    !ret.configured,
@end

@fn ctor_ds
cxx: denStream::denStream
file: Preprocessing/denStream.cpp
self: ctor DenStream
sig:
ensures:
    !ret.configured,
@end

@fn ctor_pre
cxx: preprocessor::preprocessor
file: Preprocessing/preprocessor.cpp
self: ctor Preprocessor
sig:
ensures:
    !ret.configured,
@end
