From 0fe173ed82ad5093e5f8d3feab627e0125352fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 01/27] fix: fastPersistence no longer reads a missing edge
 list when the complex has no edges

---
 Pipes/fastPersistence.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..1819ad7 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -77,7 +77,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	std::list<unsigned> pivots;										//Store identified pivots
 	unsigned pivotIndex = 0;
 		
-	//For each edge set 
+	//For each edge set (a complex without any edges only has its vertices)
+	if(edges.size() < 2)
+		edges.resize(2);
+	
 	for(auto edge : edges[1]){		
 		bool foundPivot = false;
 		bool br = false;
-- 
2.43.0


From d688c252962b4468ca3b8cabe18aac2751f35179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 02/27] fix: fastPersistence reports one essential H0 interval
 per connected component

---
 Pipes/fastPersistence.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 1819ad7..a98bc60 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -146,9 +146,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Each connected component has one class that never dies
+	for(unsigned i = mst.size(); i < edges[0].size(); i++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
-- 
2.43.0


From a7cf696efa4e3f0542fe7244583a5258964bf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 03/27] fix: fastPersistence no longer dereferences the end of
 the pivot list

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index a98bc60..5e2666d 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -204,7 +204,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From 9e915aa418672cf2f8797e50fa574fb61eedd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 04/27] fix: fastPersistence pairs each column with its
 youngest face

---
 Pipes/fastPersistence.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 5e2666d..92c4609 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -221,8 +221,9 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				}
 				//Reduce the column or store into the unordered map
 								
-				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				//	The pivot of a column is its youngest face (largest filtration index)
+				std::set<unsigned int>::reverse_iterator pIndex;
+				while((pIndex = cofaceList.rbegin()) != cofaceList.rend()){
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From ab2cefdfa0df40af83b33f490a8d88e592621661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 05/27] fix: simplexTree constructor initializes its head and
 node count

---
 Complex/simplexTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..f1d8790 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -7,6 +7,8 @@
 
 simplexTree::simplexTree(double _maxEpsilon, std::vector<std::vector<double>> _distMatrix, int _maxDim){
 	indexCounter = 0;
+	nodeCount = 0;
+	head = nullptr;
 	distMatrix = _distMatrix;
 	maxDimension = _maxDim;
 	maxEpsilon = _maxEpsilon;
-- 
2.43.0


From 3fbe093d75816bcf995fa7e4a8317a40622eaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 06/27] fix: simplexTree getAllEdges sorts again after later
 insertions

---
 Complex/simplexTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index f1d8790..15a17a4 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -279,6 +279,9 @@ void simplexTree::insert(std::vector<double>&) {
 		return;
 	}
 
+	//The stored graph needs to be sorted again after this insertion
+	isSorted = false;
+
 	//Create our new node to insert
 	treeNode* curNode = new treeNode;
 	curNode->index = indexCounter;
-- 
2.43.0


From ed582fc29781c4b117e5b555d3247a94886f3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 07/27] fix: simplexTree clear handles an empty tree, does not
 write to freed nodes and resets the simplex count

---
 Complex/simplexTree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 15a17a4..73130d2 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -548,7 +548,6 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 	deletionCount++;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
@@ -569,8 +568,10 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 void simplexTree::clear(){
 
 	//Clear the simplexTree structure
-	deletion(head);
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
+	nodeCount = 0;
 
 	//Clear the weighed edge graph
 	for(auto z : weightEdgeGraph){
-- 
2.43.0


From 029bf6895146e7b8602b37052d859939d97761d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 08/27] fix: simplexTree getDimEdges does not read past the
 stored dimensions

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 73130d2..836afdb 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -475,7 +475,7 @@ std::pair<std::vector<std::set<unsigned>>, std::vector<std::set<unsigned>>> simp
 std::vector<std::vector<unsigned>> simplexTree::getDimEdges(int d,double){
 	std::vector<std::vector<unsigned>> ret;
 
-	if(weightEdgeGraph.size() >= d){
+	if(d >= 0 && weightEdgeGraph.size() > d){
 		for(auto z : weightEdgeGraph[d]){
 			std::vector<unsigned> temp(z.first.begin(), z.first.end());
 			ret.push_back(temp);
-- 
2.43.0


From 2188a051e6def47eb0a54af4f6bd3c32041e1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 09/27] fix: setUnion of two equal vectors is that vector, not
 the empty one

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..7b1323c 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -379,7 +379,7 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From 16098b229adc1d670692d5678352be26bece0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 10/27] fix: reduceBoundaryMatrix does not read the column
 count from an emptied matrix

---
 Pipes/boundaryPipe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index c493891..c385779 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -57,8 +57,11 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 	if(boundaryMatrix.size() <= 0)
 		return std::make_pair(ret,std::make_pair(0,0));
 		
+	//Rows are removed from the matrix below; store the number of columns
+	unsigned columns = boundaryMatrix[0].size();
+		
 	//Step through each column and search for a 1 in that column
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	for(unsigned i = 0; i < columns; i++){
 		//Step through each vector
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
 			
-- 
2.43.0


From 19338bbb9a803d9f1841679989790401e2ba1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 11/27] fix: kMeansPlusPlus classifies the last point of the
 data

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..e9cb999 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -112,7 +112,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From bd4dcdb589e53d628fb4ec5006bca3088342fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 12/27] fix: kMeansPlusPlus does not read past the data when it
 has fewer distinct points than clusters

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index e9cb999..12067b4 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -81,7 +81,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     }       
     
     int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
-- 
2.43.0


From 11716a287fec8501711d3fecbd646f3de72b881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 13/27] fix: kdTree neighborhood visits the branch that can
 hold points at exactly the radius

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..e62da47 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 7861c3a2a54795278b70252b84f90d9a4e8b129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 14/27] fix: argParser does not read a missing value after the
 last argument

---
 Utils/argParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..420dd55 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,10 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i + 1 == argc){
+			std::cout << "Missing value for argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From ae223f6f4c5afc6144822a3c03f5a87306c0c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 15/27] fix: readInput keeps rows that consist of a single
 character

---
 Utils/readInput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..9ac17ea 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -62,10 +62,10 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
 	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	line = std::regex_replace(line, std::regex("\\s"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From a56edf486ed7af4864fb83cd74f2cbd7fefcf203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 16/27] fix: readInput streamRead before streamInit reports
 failure instead of reading an uninitialized file

---
 Utils/readInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 9ac17ea..049e432 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -19,7 +19,7 @@
 
 // readInput constructor, currently no needed information for the class constructor
 readInput::readInput(){
-
+	pFile = NULL;
 }
 
 // readCSV -> read in a csv formatted file from file input
-- 
2.43.0


From 90967aa4012f89413033bdd83578ae90fdf178dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 17/27] fix: writeMAT does not read the first row of empty data

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..d04a434 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.size() > 0 ? data[0].size() : 0) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From 6f79f5a2084eef38d9b5084488f9333185ce3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 18/27] fix: kdTree compares floating point distances without
 truncating them to int

---
 Preprocessing/kdTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index e62da47..25222e9 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -201,7 +201,7 @@ kdNodePtr kdTree::findNearest(const kdNodePtr &branch, const point &pt, const si
         }
     }
 
-    if(abs(dx) < bestDistL){
+    if(std::abs(dx) < bestDistL){
         further = findNearest(other, pt, nextLv, bestL, bestDistL);
         if(!further->x.empty()){
             double dl = ut.vectors_distance(further->x, pt);
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 278a9ef50c5fffb03d26d872fb98d95f45302021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 19/27] fix: setIntersect/setUnion of equal unsorted vectors
 return the sorted list

---
 Utils/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 7b1323c..d11125c 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -181,14 +181,14 @@ double utils::vectors_distance(const std::vector<double>& a, const std::vector<d
 std::vector<unsigned> utils::setIntersect(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> ret;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_intersection(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(ret));
 
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
@@ -378,14 +378,14 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> ret;
 	std::vector<unsigned> retTemp;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_union(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(retTemp));
 		
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
-- 
2.43.0


From 895cfd3a96471d49baf57522f09fc30361e55d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 20/27] fix: argParser printArguments does not add unknown
 options to the option table

---
 Utils/argParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 420dd55..e6469f8 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -105,7 +105,8 @@ void argParser::printArguments(std::map<std::string,std::string> args){
 	//Print the argument set
 	std::cout << "Arguments being used: " << std::endl;
 	for( const auto& sm_pair : args	){
-		std::cout << "\t" << sm_pair.first << " (" << argMap[sm_pair.first] << ")   \t" << sm_pair.second << std::endl;
+		auto shortName = argMap.find(sm_pair.first);
+		std::cout << "\t" << sm_pair.first << " (" << (shortName == argMap.end() ? "" : shortName->second) << ")   \t" << sm_pair.second << std::endl;
 	}
 	std::cout << std::endl;
 	return;
-- 
2.43.0


From 9e52c72b1ebef98f4b5cad4e948c04c947fb3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 21/27] fix: readMAT repeated the last number for lines missing
 from the file

---
 Utils/readInput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 049e432..f4455b2 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -126,7 +126,9 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 		std::vector<double> tmp;	//Temporary (current) vector
 		
 		for(int dim = 0; dim < dimensions; dim++){
-			getline(file, line);		//Read the next line from file
+			// Read the next line from file; a line missing from the file is blank
+			if(!getline(file, line))
+				line.clear();
 			
 			// Replace whitespace in the current line
 			line = std::regex_replace(line, std::regex(" "), "");
-- 
2.43.0


From c10dd206fc4aca85812451eb69e3716ebba1a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 22/27] fix: zero-dimensional table rows of edges that start a
 component were missing

---
 Pipes/fastPersistence.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 92c4609..fc36dcb 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -129,6 +129,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
-- 
2.43.0


From 8fe35896c9c9fcf04515fb36972452485bafcabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 23/27] fix: table rows above dimension zero named simplex
 indices instead of points

---
 Pipes/fastPersistence.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index fc36dcb..353427c 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -233,7 +233,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
 								bettis += std::to_string(d) + "," + std::to_string(edges[d][*pIndex].second) +"," + std::to_string(edges[d+1][columnIndex].second) + "\n";
 								
-							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, cofaceList };
+							//The table names the points of the class, not the indices of its simplices
+							std::set<unsigned> boundaryPoints;
+							for(auto face : cofaceList)
+								boundaryPoints.insert(edges[d][face].first.begin(), edges[d][face].first.end());
+								
+							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, boundaryPoints };
 							inData.bettiTable.push_back(des);
 						}
 											
-- 
2.43.0


From 6aa3f8604ac1c638ca8800fb7bc4f782062ea4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 24/27] fix: mapPartitionIndexing changed copies of the table
 rows

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index d11125c..51170dd 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From 8a22ce14d3937392239b78d31a1a27fa7874bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 25/27] fix: simplexTree clear kept counting point indices from
 before

---
 Complex/simplexTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 836afdb..2f5825f 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -581,9 +581,9 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
 
 }
 
-- 
2.43.0


From bae67f13b9196889cb18b8eb786c934cbcf98620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 26/27] fix: reduced mode remapped and repeated the intervals
 of earlier partitions

---
 LHFmain/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..a5e514d 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -129,10 +129,15 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 			for(auto betEntry : wD->bettiTable)
 				mergedBettiTable.push_back(betEntry);
 			
+			//The next partition starts from an empty table; these entries are mapped already
+			wD->bettiTable.clear();
+			
 		} else 
 			std::cout << "skipping" << std::endl;
 	}
 	
+	wD->bettiTable = mergedBettiTable;
+	
 	std::cout << "Full Data: " << centroids.size() << std::endl;
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
-- 
2.43.0


From 4be1d21d363f7327d56315c4e6f07b5d07d22cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 27/27] fix: an unknown complex type crashed the program

---
 LHFmain/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index a5e514d..700c17b 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -287,8 +287,8 @@ int main(int argc, char* argv[]){
 		wD->originalData = rs->readCSV(args["inputFile"]);
 		wD->fullData = wD->originalData;
 	}
-	//If data was found in the inputFile
-	if(wD->originalData.size() > 0 || args["pipeline"] == "slidingwindow"){
+	//If the complex is known and data was found in the inputFile
+	if(wD->complex != 0 && (wD->originalData.size() > 0 || args["pipeline"] == "slidingwindow")){
 		
 		//Add data to our pipePacket
 		wD->originalData = wD->originalData;
-- 
2.43.0

