#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are edited in one place).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
U="Utils/utils.cpp"
p("P01","Simplex set algebra is exact",
 "The intersection, union, symmetric difference and face-enumeration operations on vertex collections return exactly the mathematical result: the ordered duplicate-free list of elements in both, in either, in exactly one, or all faces of the requested size each exactly once. Vector inputs flagged as unsorted are sorted first, and inputs are never modified.",
 ["inputs"],"for every pair of duplicate-free vertex lists or sets, in any order when not flagged sorted, of every length",
 "the complex and persistence code branch on the sizes and members of these results; a wrong element shows up only for particular overlaps (equal inputs, disjoint inputs, interleaved or nested ranges) that fixed examples do not enumerate",
 [U],[("setIntersect/setUnion/symmetricDiff/setXOR/intersect",U),("getSubsets (three overloads)",U)])
p("P02","Point distances are Euclidean",
 "The distance between two points of equal dimension is the square root of the sum of squared coordinate differences. The neighbour-distance query returns, in cloud order, the distance from the query point to every cloud point, and the maximum cluster radius is the largest distance from any labelled point to the centroid its label names (zero when there are none).",
 ["inputs"],"for every pair of points of every dimension, every point cloud, labelling and centroid list",
 "every later stage depends on this number; a mistake in one coordinate, in accumulation or in the choice of centroid only shows for particular coordinates and labellings",
 [U],[("vectors_distance",U),("nearestNeighbors",U),("computeMaxRadius",U)])
p("P03","Partitioning keeps every point where it belongs",
 "Splitting data by label puts each point, together with its original index, into exactly the partition its label names, in original order. Splitting by radius puts a point and its index into exactly those partitions whose centroid is strictly closer than the radius, and splitting by boundary puts a point into exactly the boundaries containing its label.",
 ["inputs"],"for every data set, labelling, centroid list, radius and list of boundaries",
 "points lost, duplicated or filed under the wrong index appear only for particular label patterns and distances; the tests never call these operations",
 [U],[("separatePartitions (label and radius)",U),("separateBoundaryPartitions",U)])
F="Pipes/distMatrixPipe.cpp"
p("P04","Distance matrix stage is exact",
 "After the distance-matrix stage the complex holds an n by n matrix whose entry (i,j) with i<j is the distance of points i and j, and whose other entries are zero. The recorded filtration weights are exactly the distances below the threshold together with zero and the threshold, and nothing else of the data packet changes.",
 ["inputs"],"for every data set of nonempty points and every threshold",
 "one wrong index or comparison corrupts single entries that only particular data sizes or ties with the threshold expose",
 [F,U],[("distMatrixPipe::runPipe",F),("vectors_distance",U)])
A="Complex/simplexArrayList.cpp"
p("P05","Array-list complex is the exact Vietoris-Rips complex",
 "After all points are inserted and the complex is expanded to dimension d, the stored simplices of every size up to d+1 are exactly the sets of points whose pairwise distances are all at most the threshold, each stored once in increasing vertex order. The weight stored with a simplex is the largest of its pairwise distances (zero for a vertex), and expanding again changes nothing.",
 ["inputs"],"for every distance matrix, threshold and expansion dimension, in every order of edge weights",
 "the construction finds a clique through pairs of its faces; a missing, spurious, duplicate or wrongly weighted simplex depends on the combinatorics of the whole graph",
 [A,"Pipes/neighGraphPipe.cpp","Pipes/ripsPipe.cpp",U],[("simplexArrayList::insert",A),("simplexArrayList::expandDimensions",A),("neighGraphPipe::runPipe","Pipes/neighGraphPipe.cpp"),("ripsPipe::runPipe","Pipes/ripsPipe.cpp")])
T="Complex/simplexTree.cpp"
p("P06","Simplex tree is the exact Vietoris-Rips complex",
 "After inserting points one by one, the simplex tree reports exactly the point sets of at most the maximum dimension plus one points whose pairwise distances are all below the threshold, each once, weighted by its largest pairwise distance. The listing of all simplices is ordered by weight within each size, the simplex count equals the number of reported simplices, and after clearing it is empty and can be filled again, numbering points from zero.",
 ["inputs","histories"],"for every nonnegative distance matrix, threshold and positive maximum dimension, after every number of insertions, clears and queries",
 "the tree is updated incrementally through sibling and child pointers; a lost branch or stale pointer appears only for particular insertion histories",
 [T],[("simplexTree::insert/recurseInsert",T),("simplexTree::getAllEdges",T),("simplexTree::clear/deletion",T)])
p("P07","Complex queries agree with the stored complex",
 "Listing all simplices returns per dimension a permutation of the stored simplices in nondecreasing weight order. Membership, weight lookup, simplex and vertex counts, the dimension-and-threshold filter, single deletion and clearing of the array-list complex all agree with the stored set of simplices and change nothing they should not.",
 ["inputs","histories"],"for every stored complex, every queried vertex list, dimension and threshold",
 "a wrong count, a mis-sorted tie or a deleted neighbour shows only for particular stored contents",
 [A],[("getAllEdges/find/findWeight/simplexCount/vertexCount/getDimEdges/deletion/clear",A)])
FP="Pipes/fastPersistence.cpp"
p("P08","Zero-dimensional barcode is the merge tree of components",
 "The zero-dimensional intervals reported by the default persistence stage are, in nondecreasing order, the weights of the edges that join two different components when edges are taken in filtration order, followed by one interval ending at the threshold for each remaining connected component. The number of zero-dimensional intervals therefore equals the number of vertices. The interval table gets the same zero-dimensional intervals as the text.",
 ["inputs"],"for every weighted neighbourhood graph, including graphs without edges, disconnected graphs and ties",
 "component merging depends on the whole edge order; tests run the stage on empty data only",
 [FP,U],[("fastPersistence::runPipe, minimum spanning tree loop",FP),("setIntersect",U)])
p("P09","Higher-dimensional barcode is persistent homology",
 "For each dimension from one up to one less than the configured dimension, the reported finite intervals of nonzero length are exactly the persistent homology intervals over the two-element field of the filtered complex, each with the weight of the simplex that creates the class and of the simplex that fills it. The computation never reads outside the filtration, and the rows it adds to the interval table name only points of the filtration.",
 ["inputs"],"for every filtered complex and configured dimension",
 "a wrong pivot choice or a skipped row changes pairings only for particular boundary matrices",
 [FP,U],[("fastPersistence::runPipe, column reduction",FP),("setXOR",U)])
B="Pipes/boundaryPipe.cpp"; PP="Pipes/persistencePairs.cpp"
p("P10","Boundary matrices and their ranks are exact",
 "Two simplices are related as face and coface exactly when their vertex sets differ by one element, and filtering by size and threshold returns exactly the matching simplices in order. The reported rank is the rank of the binary matrix over the two-element field with nullity the number of columns minus the rank, and the reported pivot rows are exactly the rows not spanned by earlier rows.",
 ["inputs"],"for every binary matrix with at least one row and every pair of simplices",
 "elimination removes and rewrites rows in place; only particular patterns of ones expose a missed row",
 [B,PP],[("boundaryPipe::reduceBoundaryMatrix/boundaryMatrix/checkFace/nSimplices",B),("persistencePairs::getRankNull/createBoundaryMatrix/checkFace/nSimplices",PP)])
K="Preprocessing/kdTree.cpp"
p("P11","Spatial index answers nearest and radius queries exactly",
 "A radius query returns exactly the indices of the indexed points at distance at most the radius, each once. A nearest query returns an indexed point no farther from the query than any other.",
 ["inputs"],"for every nonempty set of points of equal positive dimension, every query point and nonnegative radius",
 "branch pruning drops points only for particular geometry such as ties on the splitting coordinate or points exactly on the ball",
 [K],[("kdTree::makeTree",K),("kdTree::neighborhood",K),("kdTree::findNearest",K)])
D="Preprocessing/dbscan.cpp"
p("P12","Density clustering follows its definition",
 "Every processed point gets a label: noise exactly when no core point lies within the radius of it, otherwise a cluster number from one to the number of clusters, each of which is used. Core points within the radius of each other share a cluster, and every cluster member lies within the radius of a core point of its own cluster.",
 ["inputs"],"for every data set, positive minimum count and nonnegative radius",
 "labels depend on visiting order and density chains; the tests never run it",
 [D,K],[("dbscan::cluster/expandCluster",D),("kdTree::neighborhoodIndices",K)])
KM="Preprocessing/kMeansPlusPlus.cpp"
p("P13","Centroid clustering output is consistent",
 "After centroid clustering with at least one iteration every input point has a label below the number of clusters, and every centroid with at least one point is the arithmetic mean of the points carrying its label. The number of centroids equals the configured number of clusters whatever the random choices were, and when the assignment has stopped changing, every point carries the label of a nearest centroid among the clusters that have points.",
 ["inputs","schedules"],"for every nonempty data set of equal dimension, cluster count, iteration count and every outcome of the random choices",
 "the result depends on random seeds; a run samples one outcome",
 [KM],[("kMeansPlusPlus::runPreprocessor",KM)])
DS="Preprocessing/denStream.cpp"
p("P14","Micro-cluster summaries are exact and each point is absorbed once",
 "Inserting a point adds one to the decayed weight and moves centre and mean of squares to the weighted means including the point, and the radius predicted before a merge equals the radius after it. Merging a streamed point changes exactly one micro-cluster: the nearest potential cluster if its predicted radius allows, else the nearest outlier cluster, else a new outlier cluster; an outlier cluster whose weight exceeds the limit once it absorbed the point becomes a potential cluster.",
 ["inputs","histories"],"for every point, timestamp and list of micro-clusters",
 "formulas and list moves only differ for particular weights, radii and list positions; the tests never run them",
 [DS],[("microCluster::insertPoint/mergeRadius/getRadius/getWeight",DS),("denStream::merging/nearestPCluster/nearestOCluster",DS)])
AP="Utils/argParser.cpp"
p("P15","Command-line options resolve completely",
 "Every option with a value given in long or short form appears under its long name with that value, the value given by short name wins, every known option not given has its default, short names disappear and nothing else is added; the option tables themselves never change. Choosing a run mode fills in that mode's pipeline and fixed settings only when no pipeline was given, and an explicit pipeline is kept unless multi-process mode is on.",
 ["inputs","configurations"],"for every argument list, including an odd number of arguments, and every mode",
 "there are too many combinations of options, defaults and modes to enumerate in tests",
 [AP],[("argParser::parse",AP),("argParser::defaultArguments",AP),("argParser::setPipeline",AP)])
BP="Pipes/basePipe.cpp"
p("P16","Stages are selected, gated and sequenced as configured",
 "Each stage, preprocessor and complex name produces exactly the named component and unknown names produce none; a stage lacking a required setting refuses to be configured, and an unconfigured stage returns the data unchanged. A pipeline description runs its dot-separated stages once each, in order, each on the previous one's result and each adding one line to the statistics.",
 ["configurations","inputs"],"for every stage name, configuration map and pipeline description",
 "combinations of names, missing settings and stage orders are not enumerable by tests",
 [BP,"LHFmain/main.cpp","Complex/simplexBase.cpp","Preprocessing/preprocessor.cpp"],[("basePipe::newPipe/runPipeWrapper",BP),("configPipe of every stage","Pipes"),("runPipeline","LHFmain/main.cpp"),("simplexBase::newSimplex","Complex/simplexBase.cpp"),("preprocessor::newPreprocessor/runPreprocessorWrapper","Preprocessing/preprocessor.cpp")])
RI="Utils/readInput.cpp"
p("P17","Input files are read exactly",
 "Reading a comma-separated file returns, in file order, one row per non-blank line holding the numbers between the commas with whitespace ignored. Reading a matrix file returns as many rows as its first line says, row i holding the non-blank numbers of its block of as many lines as the second line says, and unreadable files give no rows. Reading a comma-separated file as a stream (lines under 1000 characters) yields the same rows one at a time, until its first blank line or its end.",
 ["inputs"],"for every file of well-formed numbers, with blank lines, spaces, single-character rows or trailing commas",
 "row and separator handling fails only for particular line shapes",
 [RI],[("readInput::readCSV/parseDoubleVector",RI),("readInput::readMAT",RI),("readInput::streamInit/streamRead",RI)])
WO="Utils/writeOutput.cpp"
p("P18","Output files contain exactly the data given",
 "Each writer creates the file named after its argument with its fixed suffix, containing the header if any and then every value of the data in row order with the documented separators, and nothing else. Writing nothing still produces a valid file.",
 ["inputs"],"for every table of numbers, text, header and file name",
 "a dropped last row or separator shows only for particular table shapes",
 [WO],[("writeOutput::writeCSV/writeMAT/writeBarcodes/writeStats",WO)])
NW="Pipes/naiveWindow.cpp"
p("P19","The naive stream window holds the most recent points",
 "While streaming, the window holds in arrival order the most recent points read, up to its fixed capacity, and the data handed to the complex when the window first fills are exactly its first points. No point is duplicated, reordered or dropped early.",
 ["inputs","histories"],"for every stream of every length, with the complex that supports streaming (the simplex tree)",
 "off-by-one eviction appears only once the window is full; tests run the stage without a stream",
 [NW,"Complex/simplexTree.cpp"],[("naiveWindow::runPipe",NW),("simplexTree::insertIterative","Complex/simplexTree.cpp")])
SW="Pipes/slidingWindow.cpp"
p("P20","Partition-aware window keeps its bookkeeping consistent",
 "While streaming through the partition-aware window, the labels, keys, nearest-neighbour indices and distances and the per-partition counts always describe exactly the points currently in the window. An evicted point never belongs to the partition receiving the new point when another partition exists.",
 ["inputs","histories"],"for every stream",
 "bookkeeping drifts only after particular sequences of partition changes",
 [SW],[("slidingWindow::nnBasedEvaluator/updateStats/deleteNNstats",SW)])
MN="LHFmain/main.cpp"
p("P21","Reduced mode reports every partition's intervals once, by original point",
 "After the preprocessor, reduced mode forms for every centroid the partition of the points closer to it than twice the largest distance of a point to its own centroid. The pipeline runs once on every non-empty partition, from an empty table and a cleared complex, and then once on the centroids. The final interval table holds every partition's intervals exactly once, in order, with their points named by original index, when the centroid run starts, and the packet keeps the full data and the labels.",
 ["inputs","configurations"],"for every data set, clustering, configuration and pipeline whose intervals name points of the data it ran on",
 "which rows are lost, repeated or renamed depends on the number, order and overlap of the partitions; no test runs the reduced mode",
 [MN,U,T],[("processReducedWrapper",MN),("utils::mapPartitionIndexing",U),("utils::separatePartitions/computeMaxRadius",U),("simplexTree::clear",T)])
p("P22","The program runs what its command line asks for and leaves the results in the named files",
 "Started with any command line, the program reads the rows of the input file, applies the chosen preprocessor and runs the pipeline of the resolved options on them, partition by partition in reduced mode; upscale mode only partitions. Unless the output file is console, afterwards the statistics file holds its header and the statistics of that run (one line per stage, the latest last) and the interval file its header and the interval text of that run. Without data or with an unknown complex type nothing is run and no result file is touched (logs and debug files aside).",
 ["inputs","configurations"],"for every command line and input file of well-formed numbers, with stages that handle the data they are given",
 "the combinations of options, modes and files cannot be enumerated, and no test starts the program",
 [MN,"Pipes/pipePacket.cpp",WO,AP,RI],[("main",MN),("processUpscaleWrapper/processDataWrapper/runPipeline",MN),("pipePacket::pipePacket","Pipes/pipePacket.cpp"),("writeOutput::writeStats/writeBarcodes",WO)])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
