// ---------------------------------------------------------------- the program as a whole
/// the options the program works with: those on its command line, completed by the defaults and by the run mode
pub open spec fn options(a: Seq<CStr>, m: Map<CStr,CStr>) -> bool {
    exists|i: int, m0: Map<CStr,CStr>| #![trigger resolved(given(a, i), m0, doc_short(), doc_default())]
        a.len() <= i <= a.len() + 1 && i % 2 == 1 && resolved(given(a, i), m0, doc_short(), doc_default())
        && (forall|k: CStr| #[trigger] gv(m, k) == mode_value(m0, k)) && (forall|k: CStr| #[trigger] doc_short().contains_key(k) ==> m.contains_key(k))
}
pub open spec fn windowed(m: Map<CStr,CStr>) -> bool { gv(m, lit("pipeline")) == lit("slidingwindow") }
/// the rows of the input file; none when it cannot be read or the window stage reads it itself
pub open spec fn input_rows(m: Map<CStr,CStr>, d: Map<Seq<u8>, Seq<u8>>) -> Seq<Seq<F64>> {
    if windowed(m) || !readable(d, gv(m, lit("inputFile"))@) { Seq::empty() } else { csv_rows(d[gv(m, lit("inputFile"))@]) }
}
/// the packet the run starts with: the rows of the input file as working and as full data, the complex asked for, nothing else
pub open spec fn loaded(m: Map<CStr,CStr>, d: Map<Seq<u8>, Seq<u8>>, w: PipePacket) -> bool {
    &&& vrows(w.originalData@) == input_rows(m, d) && w.fullData@ =~= w.originalData@
    &&& w.bettiTable@.len() == 0 && w.originalLabels@.len() == 0 && w.boundaries@.len() == 0 && w.stats@.len() == 0 && w.bettiOutput@.len() == 0
    &&& !w.complex.null && complex_class(gv(m, lit("complexType"))) == Some(w.complex.cls)
    &&& w.complex.base.maxDimension == s_atoi(gv(m, lit("dimensions"))) && w.complex.base.maxEpsilon@ == s_atof(gv(m, lit("epsilon")))
}
/// every point has at most one label, and it names one of the k partitions
pub open spec fn labelled(w: PipePacket, k: int) -> bool { k >= 0 && w.originalLabels@.len() <= w.fullData@.len() && forall|i: int| 0 <= i < w.originalLabels@.len() ==> (#[trigger] w.originalLabels@[i]) < k }
/// nothing is run without data or without a known complex
pub open spec fn runs(m: Map<CStr,CStr>, d: Map<Seq<u8>, Seq<u8>>) -> bool { complex_class(gv(m, lit("complexType"))).is_some() && (windowed(m) || input_rows(m, d).len() > 0) }
/// what the contracts of the parts need: a well-formed input file and, in the partitioned modes, a preprocessor and a pipeline that deliver consistent labels and points
pub open spec fn sound_run(m: Map<CStr,CStr>, d: Map<Seq<u8>, Seq<u8>>) -> bool {
    &&& !windowed(m) && readable(d, gv(m, lit("inputFile"))@) ==> csv_ok(d[gv(m, lit("inputFile"))@])
    &&& gv(m, lit("upscale")) == lit("true") ==> forall|a: PipePacket, w: PipePacket| loaded(m, d, a) && #[trigger] pre_result(m, a, w) ==> labelled(w, s_atoi(gv(m, lit("clusters"))))
    &&& gv(m, lit("upscale")) != lit("true") && gv(m, lit("mode")) == lit("reduced") ==> runs_name_points(with_clusters(with_pre(m))) && forall|a: PipePacket, w: PipePacket| loaded(m, d, a) && #[trigger] pre_result(m, a, w) ==> clustered(w)
}
/// what the program leaves on disk
pub open spec fn program_result(m: Map<CStr,CStr>, d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>) -> bool {
    if !runs(m, d0) || gv(m, lit("upscale")) == lit("true") { d1 == d0 }
    else if gv(m, lit("mode")) == lit("reduced") {
        exists|a: PipePacket, w: PipePacket, b: PipePacket| loaded(m, d0, a) && #[trigger] pre_result(m, a, w) && #[trigger] reduced_result(with_clusters(with_pre(m)), w, b)
            && (w.originalData@.len() > 0 ==> results_left(with_clusters(with_pre(m)), b, d1))
    } else {
        exists|a: PipePacket, w: PipePacket, b: PipePacket| loaded(m, d0, a) && #[trigger] pre_result(m, a, w) && #[trigger] pipeline_result(with_pre(m), w, b) && results_written(with_pre(m), b, d0, d1)
    }
}
