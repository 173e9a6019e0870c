@fn ap_default
cxx: argParser::defaultArguments
file: Utils/argParser.cpp
globals: argMap defaultMap
self: none
requires:
    tables(old(argMap)@, old(defaultMap)@),
ensures:
    resolved(old(map)@, final(map)@, doc_short(), doc_default()),
    ret@ == final(map)@,
    final(argMap)@ == old(argMap)@, final(defaultMap)@ == old(defaultMap)@,
at entry:
    let ghost m0 = map@; let ghost mut done: Set<CStr> = Set::empty();
    proof { lem_names(); lem_res_start(m0, doc_short(), doc_default()); }
    let ghost ks = argMap.keys();
    proof { assert(ks.take(0).to_set() =~= Set::empty()); }
loop 1 invariant:
    tables(argMap@, defaultMap@), argMap.keys() == ks, names_ok(doc_short()), doc_default().dom() == doc_short().dom(), dupfree(ks), done == ks.take($i as int).to_set(), resolving(m0, map@, doc_short(), doc_default(), done),
    $i <= ks.len(), old(argMap)@ == argMap@, old(defaultMap)@ == defaultMap@, m0 == old(map)@,
loop 1 decreases:
    ks.len() - $i
at loop1.begin:
    let ghost r0 = map@; let ghost am0 = *argMap; let ghost l = ks[$i as int];
    assert(ks.contains(l)); assert(argMap@.contains_key(l)); assert(doc_default().contains_key(l));
    proof { lem_take_names(ks, $i as int); }
    assert(doc_short()[l] != l) by { reveal(names_ok); }
at loop1.end:
    assert(cmap_of(am0@) == am0 && cmap_of(argMap@) == *argMap);
    assert(defaultMap@ =~= doc_default());
    proof { lem_res_step(m0, r0, map@, doc_short(), doc_default(), done, l); done = done.insert(l); }
at return:
    assert forall|l: CStr| doc_short().contains_key(l) implies done.contains(l) by { assert(ks.take(ks.len() as int) =~= ks); assert(argMap@.contains_key(l)); assert(ks.contains(l)); }
    proof { lem_res_end(m0, map@, doc_short(), doc_default(), done); }
@end

@fn ap_parse
cxx: argParser::parse
file: Utils/argParser.cpp
globals: argMap defaultMap
self: none
requires:
    tables(old(argMap)@, old(defaultMap)@),
    0 <= argc < i32::MAX - 2, argv@.len() == argc,
ensures:
    exists|i: int| argc <= i <= argc + 1 && #[trigger] resolved(given(argv@, i), ret@, doc_short(), doc_default()) && i % 2 == 1,
    final(argMap)@ == old(argMap)@, final(defaultMap)@ == old(defaultMap)@,
loop 1 invariant:
    1 <= i, i % 2 == 1, i <= argc + 1 || argc == 0 && i == 1, argc == argc_0, argv == argv_0, 0 <= argc < i32::MAX - 2, argv@.len() == argc,
    retVal@ == given(argv@, i as int),
    tables(argMap@, defaultMap@), argMap@ == old(argMap)@, defaultMap@ == old(defaultMap)@,
loop 1 decreases:
    argc + 2 - i
at loop1.begin:
    let ghost w = argv@[i as int]; let ghost i0 = i as int;
    proof { lem_dashes(w); reveal_with_fuel(given, 2); if w@.len() == 0 { assert(w@.subrange(0, 0) =~= w@); assert(cstr_of(w@) == w); } if w@.len() == 1 { assert(w@.subrange(0, 1) =~= w@); assert(cstr_of(w@) == w); } 
        reveal_strlit("--"); reveal_strlit("-"); assert(lit("--")@.len() == 2); assert(lit("-")@.len() == 1); }
at if.2.then:
    assert(long_opt(w));
at if.3.then:
    assert(!long_opt(w) && any_opt(w));
at if.3.else:
    assert(!any_opt(w));
at loop1.end:
    let ghost m0 = given(argv@, i0);
    proof { assert(given(argv@, i0 + 2) == if i0 + 1 < argv@.len() && any_opt(w) { m0.insert(opt_name(w), argv@[i0 + 1]) } else { m0 });
    if i0 + 1 < argv@.len() { if any_opt(w) { assert(retVal@ == m0.insert(opt_name(w), argv@[i0+1])); } else { assert(retVal@ == m0); } } else { assert(retVal@ == m0); } }
@end

@fn ap_usage
cxx: argParser::printUsage
file: Utils/argParser.cpp
self: none
@end

@fn ap_print
cxx: argParser::printArguments
file: Utils/argParser.cpp
globals: argMap
self: none
ensures:
    final(argMap)@ == old(argMap)@,
loop 1 invariant:
    argMap@ == old(argMap)@,
@end

@fn ap_set_pipeline
cxx: argParser::setPipeline
file: Utils/argParser.cpp
self: none
ensures:
    forall|k: CStr| #[trigger] gv(final(args)@, k) == mode_value(old(args)@, k),
    forall|k: CStr| old(args)@.contains_key(k) ==> #[trigger] final(args)@.contains_key(k),
at entry:
    proof { ax_lits(); lem_empty(); }
@end
