@fn process_upscale
cxx: processUpscaleWrapper
file: LHFmain/main.cpp
self: none
mutptr: wD
requires:
    !old(wD).complex.null,
    forall|w: PipePacket| #[trigger] pre_result(args@, *old(wD), w) ==> labelled(w, s_atoi(gv(args@, lit("clusters")))),
ensures:
    pre_result(args@, *old(wD), *final(wD)),
at entry:
    let ghost m0 = args@; let ghost w0 = *wD;
    proof { ax_lits(); lem_estr(); }
at decl.pre:
    assert(args@ =~= with_pre(m0));
    assert(forall|c: CStr| pre_class(pre) == Some(c) ==> pre_ok(c, with_pre(m0)) == pre_ok(c, m0));
at if.1.after:
    assert(pre_result(m0, w0, *wD));
loop 1 invariant:
    true,
@end

@fn run_program
cxx: main
file: LHFmain/main.cpp
self: none
globals: argMap defaultMap disk
requires:
    tables(old(argMap)@, old(defaultMap)@),
    0 <= argc < i32::MAX - 2, argv@.len() == argc,
    forall|m: Map<CStr,CStr>| #[trigger] options(argv@, m) ==> sound_run(m, old(disk)@),
ensures:
    exists|m: Map<CStr,CStr>| #[trigger] options(argv@, m) && program_result(m, old(disk)@, final(disk)@),
at entry:
    proof { ax_lits(); lem_estr(); }
    let ghost d0 = disk@;
at decl.args:
    let ghost m0 = args@;
    let ghost oi = choose|i: int| argc <= i <= argc + 1 && #[trigger] resolved(given(argv@, i), m0, doc_short(), doc_default()) && i % 2 == 1;
    assert(resolved(given(argv@, oi), m0, doc_short(), doc_default()) && argv@.len() <= oi <= argv@.len() + 1 && oi % 2 == 1);
at call.setPipeline.1:
    let ghost m = args@;
    proof {
        assert forall|k: CStr| #[trigger] doc_short().contains_key(k) implies m.contains_key(k) by { assert(m0.contains_key(k)); }
        assert(forall|k: CStr| #[trigger] gv(m, k) == mode_value(m0, k));
        assert(options(argv@, m)); assert(sound_run(m, d0)); assert(doc_short().contains_key(lit("pipeline"))); assert(doc_short().contains_key(lit("inputFile"))); assert(doc_short().contains_key(lit("upscale"))); assert(doc_short().contains_key(lit("mode"))); assert(doc_short().contains_key(lit("dimensions"))); assert(doc_short().contains_key(lit("epsilon"))); assert(doc_short().contains_key(lit("complexType")));
    }
at decl.wD:
    let ghost b0 = wD;
    assert(args@ == m);
at if.2.before:
    assert(args@ == m && disk@ == d0 && wD.complex == b0.complex);
    proof { if windowed(m) { assert(vrows(wD.originalData@) =~= input_rows(m, d0)); } assert(vrows(wD.originalData@) == input_rows(m, d0)); assert(wD.originalData@.len() == input_rows(m, d0).len()); }
    let q = wD.originalData.len();
    assert(!wD.complex.null ==> loaded(m, d0, wD));
at if.3.before:
    let ghost a = wD;
    assert(runs(m, d0)); assert(loaded(m, d0, a)); assert(args@ == m);
at if.3.then:
    assert(args@ == m); assert(gv(m, lit("upscale")) == lit("true"));
    assert(forall|w: PipePacket| #[trigger] pre_result(m, a, w) ==> labelled(w, s_atoi(gv(m, lit("clusters")))));
at if.4.then:
    assert(args@ == m);
at if.4.else:
    assert(args@ == m);
at call.processReducedWrapper.1:
    proof { let w = choose|w: PipePacket| #[trigger] pre_result(m, a, w) && reduced_result(with_clusters(with_pre(m)), w, wD) && (w.originalData@.len() > 0 ==> results_left(with_clusters(with_pre(m)), wD, disk@)); assert(pre_result(m, a, w)); assert(program_result(m, d0, disk@)); }
at call.processDataWrapper.1:
    proof { let w = choose|w: PipePacket| #[trigger] pre_result(m, a, w) && pipeline_result(with_pre(m), w, wD); assert(pre_result(m, a, w)); assert(program_result(m, d0, disk@)); }
at if.2.after:
    assert(program_result(m, d0, disk@));
@end
