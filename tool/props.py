"""Per-property configuration: contracted functions, libraries, structs, harness."""
def own_complex(g):
    import ctypes_ as CT
    CT.OWNED_PTR['simplexBase']='SimplexBase'
def own_arraylist(g):
    import ctypes_ as CT
    CT.OWNED_PTR['simplexBase']='SimplexArrayList'
    g.T.dyn['simplexBase']='simplexArrayList'
BETTI=('Utils/utils.cpp','bettiBoundaryTableEntry',None,'BettiBoundaryTableEntry')
PACKET=[BETTI,('Complex/simplexBase.cpp','simplexBase'),('Pipes/pipePacket.cpp','pipePacket')]
ARRAY_PACKET=[BETTI,('Complex/simplexArrayList.cpp','simplexArrayList'),('Pipes/pipePacket.cpp','pipePacket')]
ARRAYLIST=[('Complex/simplexArrayList.cpp','simplexArrayList')]
def kd_setup(g):
    import ctypes_ as CT
    from ctypes_ import Ty
    CT.SPVAL['kdNode']='KdPtr'
    g.T.globals['ut']=('()',Ty('struct',name='utils'))
KDTREE=[('Preprocessing/kdTree.cpp','kdNode'),('Preprocessing/kdTree.cpp','kdTree')]
PROPS={
 'P01':{'roots':['set_xor','set_intersect_v','set_intersect_s','intersect_v','symmetric_diff_v','symmetric_diff_s','set_union_v','get_subsets_sd','get_subsets_s','get_subsets_v'],
        'libs':['base.rs'],'harness':'P01.cpp','objs':['utils.cpp']},
 'P02':{'roots':['vectors_distance','vectors_distance_scalar','nearest_neighbors','compute_max_radius'],
        'libs':['base.rs'],'harness':'P02.cpp','objs':['utils.cpp']},
 'P03':{'roots':['separate_partitions_label','separate_partitions_radius','separate_boundary_partitions'],
        'libs':['base.rs','partition.rs'],'harness':'P03.cpp','objs':['utils.cpp']},
 'P04':{'roots':['dist_matrix_run','set_distance_matrix'],'libs':['base.rs','distmatrix.rs'],'structs':PACKET+[('Pipes/distMatrixPipe.cpp','distMatrixPipe')],'setup':own_complex,
        'harness':'P04.cpp'},
 'P07':{'roots':['al_find','al_find_weight','al_simplex_count','al_vertex_count','al_dim_edges','al_all_edges','al_delete','al_clear'],'libs':['base.rs','arraylist.rs'],'structs':ARRAYLIST,
        'harness':'P07.cpp'},
 'P05':{'roots':['al_insert','al_find_weight','al_expand','al_all_edges','neigh_graph_run','rips_run'],'libs':['base.rs','arraylist.rs','rips.rs','filtration.rs','ripsbridge.rs'],'setup':own_arraylist,
        'structs':ARRAY_PACKET+[('Pipes/neighGraphPipe.cpp','neighGraphPipe'),('Pipes/ripsPipe.cpp','ripsPipe')],'harness':'P05.cpp'},
 'P10':{'roots':['bp_nsimplices','bp_checkface','bp_reduce','bp_boundary','pp_nsimplices','pp_checkface_v','pp_checkface_s','pp_rank','pp_pivots'],'libs':['base.rs','boundary.rs'],
        'structs':[('Pipes/boundaryPipe.cpp','boundaryPipe'),('Pipes/persistencePairs.cpp','tArrayEntry_t'),('Pipes/persistencePairs.cpp','persistencePairs')],'harness':'P10.cpp'},
 'P11':{'roots':['kd_new','kdnode_ctor_pi','kdnode_ctor_pt','kd_make','kd_ctor','kd_find_nearest','kd_nearest','kd_nearest_point','kd_nearest_index','kd_nearest_pi','kd_neigh_rec','kd_neigh','kd_neigh_points','kd_neigh_indices'],
        'libs':['base.rs','kdtree.rs'],'setup':kd_setup,'structs':KDTREE,'harness':'P11.cpp','objs':['utils.cpp','kdTree.cpp']},
 'P12':{'roots':['db_cluster','db_expand'],'libs':['base.rs','kdtree.rs','dbscan.rs'],'setup':kd_setup,'structs':KDTREE,'harness':'P12.cpp','objs':['utils.cpp','kdTree.cpp','dbscan.cpp']},
 'P13':{'roots':['km_run'],'libs':['base.rs','kmeans.rs'],'setup':own_complex,'structs':PACKET+[('Preprocessing/kMeansPlusPlus.cpp','kMeansPlusPlus')],'harness':'P13.cpp'},
 'P14':{'roots':['mc_new','mc_insert','mc_get_center','mc_get_creation','mc_get_weight','mc_get_radius','mc_merge_radius','ds_nearest_p','ds_nearest_o','ds_merging'],'libs':['base.rs','denstream.rs'],'setup':kd_setup,
        'structs':[('Preprocessing/denStream.cpp','microCluster'),('Preprocessing/denStream.cpp','denStream')],'harness':'P14.cpp'},
 'P15':{'roots':['ap_default','ap_parse','ap_usage','ap_print','ap_set_pipeline'],'libs':['base.rs','argparser.rs'],'harness':'P15.cpp','objs':['argParser.cpp'],
        'extra':'''pub proof fn ap_tables() ensures tables(init_argMap(), init_defaultMap()) { ax_lits(); assert(init_argMap() =~= doc_short()); assert(init_defaultMap() =~= doc_default()); }'''},
}
STAGES=['distMatrixPipe','neighGraphPipe','ripsPipe','upscalePipe','boundaryPipe','persistencePairs','optPersistencePairs','slidingWindow','fastPersistence','naiveWindow']
def dyn_setup(g):
    import ctypes_ as CT
    T=g.T
    for root,ptr,subs in(('basePipe','BasePtr',STAGES),('preprocessor','PrePtr',['kMeansPlusPlus','streamingKmeans','denStream']),('simplexBase','SimpPtr',['simplexTree','simplexArrayList','indSimplexTree'])):
        for c in [root]+subs: CT.DYN[c]=ptr; T.newcls[c]=root
    T.virtuals.update({('basePipe','configPipe'):('dyn_config','mut','bool'),('basePipe','runPipe'):('dyn_run','mut','pipePacket'),
        ('preprocessor','configPreprocessor'):('dyn_config_pre','mut','bool'),('preprocessor','runPreprocessor'):('dyn_run_pre','mut','pipePacket'),
        ('simplexBase','vertexCount'):('ext_count','ref','int'),('simplexBase','simplexCount'):('ext_count','ref','int')})
    T.externs[('pipePacket','getSize')]=('ext_size','ref','double')
    CT.OWNED_PTR['writeOutput']='WriteOutput'
    CT.OWNED_PTR['pipePacket']='PipePacket'
P16_STRUCTS=[('Utils/writeOutput.cpp','writeOutput'),('Pipes/persistencePairs.cpp','tArrayEntry_t'),('Preprocessing/denStream.cpp','microCluster'),BETTI,('Complex/simplexBase.cpp','simplexBase'),('Pipes/pipePacket.cpp','pipePacket'),('Pipes/basePipe.cpp','basePipe')]+[('Pipes/%s.cpp'%c,c) for c in STAGES]+[('Preprocessing/preprocessor.cpp','preprocessor')]+[('Preprocessing/%s.cpp'%c,c) for c in('kMeansPlusPlus','streamingKmeans','denStream')]
PROPS['P16']={'roots':['cfg_dm','cfg_ng','cfg_rp','cfg_up','cfg_bp','cfg_pp','cfg_op','cfg_fp','cfg_sw','cfg_nw','cfg_km','cfg_sk','cfg_ds','cfg_pre','run_pre_base','run_base','new_pipe','new_preproc','sb_set_config','new_simplex','pipe_packet_new','run_pipe_wrapper','run_pre_wrapper','run_pipeline','process_data']+['ctor_'+x for x in('dm','ng','rp','up','bp','pp','op','fp','sw','nw','km','sk','ds','pre')],
 'libs':['base.rs','files.rs','pipes.rs'],'structs':P16_STRUCTS,'setup':dyn_setup,'harness':'P16.cpp','cflags':['-I/usr/lib/x86_64-linux-gnu/openmpi/include','-DOMPI_SKIP_MPICXX']}
def fast_setup(g):
    import ctypes_ as CT
    CT.OWNED_PTR['simplexBase']='SimplexBase'
    for n in('simplexBase','SimplexBase'):
        g.T.externs[(n,'expandDimensions')]=('ext_expand','mut','void')
        g.T.externs[(n,'getAllEdges')]=('ext_edges','ref','std::vector<std::vector<std::pair<std::set<unsigned>,double>>>')
FAST={'libs':['base.rs','filtration.rs','persist.rs'],'setup':fast_setup,'structs':[('Pipes/fastPersistence.cpp','tArrayEntry_t')]+PACKET+[('Pipes/fastPersistence.cpp','fastPersistence')]}
PROPS['P08']=dict(FAST,roots=['fp_h0'],harness='P08.cpp')
PROPS['P09']=dict(FAST,libs=['base.rs','filtration.rs','persist.rs','homology.rs'],roots=['fp_h1','fp_pts'],harness='P09.cpp')
PROPS['P18']={'roots':['write_stats','write_barcodes_v','write_barcodes_s','write_csv_v','write_csv_s','write_csv_vh','write_csv_sh','write_mat'],'libs':['base.rs','files.rs'],
 'structs':[('Utils/writeOutput.cpp','writeOutput')],'harness':'P18.cpp','objs':['writeOutput.cpp']}
def num_setup(g): g.T.strict_num=True
PROPS['P17']={'roots':['parse_double_vector','read_csv','read_mat','stream_init','stream_read','read_input_new'],'libs':['base.rs','files.rs','readinput.rs'],'setup':num_setup,
 'structs':[('Utils/readInput.cpp','readInput')],'harness':'P17.cpp','objs':['readInput.cpp']}
def naive_setup(g):
    import ctypes_ as CT
    num_setup(g); dyn_setup(g)
    CT.FNPTR.add('sampleStreamEvaluator')
    g.T.virtuals[('simplexBase','insertIterative')]=('dyn_insert_iterative','mut','bool',(0,1))
PROPS['P19']={'roots':['st_insert_iterative','sb_set_evaluator','sample_stream_evaluator','nw_initializer','nw_run'],'libs':['base.rs','files.rs','pipes.rs','readinput.rs','naive.rs'],'setup':naive_setup,
 'structs':P16_STRUCTS+[('Complex/simplexTree.cpp','simplexTree'),('Utils/readInput.cpp','readInput')],'harness':'P19.cpp'}
def tree_setup(g):
    import ctypes_ as CT
    from ctypes_ import Ty
    CT.HEAP.add('treeNode'); g.T.heap_expr='this.heap'
    g.T.inject['simplexTree']=[('heap',Ty('struct',name='tHeap'),'THeap::new()')]
PROPS['P06']={'roots':['st_new','st_recurse','st_insert','st_vertex_count','st_simplex_count','st_dim_edges','st_all_edges','st_delete_node','st_clear'],'libs':['base.rs','tree.rs','filtration.rs','treebridge.rs'],'setup':tree_setup,
 'structs':[('Complex/simplexTree.cpp','treeNode'),('Complex/simplexTree.cpp','simplexTree')],'harness':'P06.cpp'}
def reduced_setup(g):
    dyn_setup(g)
    g.T.virtuals[('simplexBase','clear')]=('ext_clear','mut','void')
PROPS['P21']={'roots':['map_partition','process_reduced'],'libs':['base.rs','files.rs','pipes.rs','partition.rs','reduced.rs'],'setup':reduced_setup,'structs':P16_STRUCTS,'harness':'P21.cpp','cflags':['-I/usr/lib/x86_64-linux-gnu/openmpi/include','-DOMPI_SKIP_MPICXX']}
def program_setup(g):
    import ctypes_ as CT
    num_setup(g); reduced_setup(g)
    CT.OWNED_PTR['readInput']='ReadInput'; CT.OWNED_PTR['argParser']='ArgParser'
PROPS['P22']={'roots':['process_upscale','run_program','run_pipeline','process_data','pipe_packet_new'],'libs':['base.rs','argparser.rs','files.rs','readinput.rs','pipes.rs','partition.rs','reduced.rs','program.rs'],'setup':program_setup,
 'structs':P16_STRUCTS+[('Utils/readInput.cpp','readInput'),('Utils/argParser.cpp','argParser')],'harness':'P22.cpp','cflags':['-I/usr/lib/x86_64-linux-gnu/openmpi/include','-DOMPI_SKIP_MPICXX']}
